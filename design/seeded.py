import os,json,sys
D=os.path.dirname(os.path.abspath(__file__))+'/../'
R=json.load(open(D+'design/caught.json'))
print('## Planted bugs\n\nEach builds, passes the 292 tests and has a demonstration. `caught` is what the quick check of the property said with the patch applied.\n\n| bug | property | what it breaks | needs | quick check |\n|---|---|---|---|---|')
for b in sorted(os.listdir(D+'seeded')):
    m=json.load(open(D+'seeded/%s/meta.json'%b)); print('| %s | %s | %s | %s | %s |'%(b,m['property'],m['what_it_breaks'],m['needs'],R.get(b,'not run')))
print()
