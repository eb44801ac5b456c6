# prints the table of planted bugs for DESIGN.md
import json,os,sys
b=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','seeded')
print('| bug | property | needs, to manifest |\n|---|---|---|')
for i in sorted(os.listdir(b)):
    m=json.load(open(os.path.join(b,i,'meta.json')))
    print('| %s | %s | %s |'%(i,m['property'],m['needs'].replace('|','/')))
