#!/usr/bin/env python3
# Writes /verif/DESIGN.md from design/*.md, the registered rules and the planted bugs.
import json,subprocess,os,glob
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d=root+"/tools/design/"
rules={}
for l in subprocess.check_output([root+"/bin/wsvet","-list"],text=True).splitlines():
    r=json.loads(l); rules[r["id"]]=r
na={x["property"]:x["reason"] for x in json.load(open(root+"/MANIFEST.json"))["not_applicable"]}
extra=json.load(open(d+"extra.json")) if os.path.exists(d+"extra.json") else {}
out=open(d+"head.md").read(); nas=""
for l in open(root+"/properties.jsonl"):
    p=json.loads(l)
    if p["id"] in rules:
        r=rules[p["id"]]
        out+="### %s %s\n\n%s\n\n*Limits:* %s\n"%(p["id"],p["title"],r["rule"],r["limits"])
        if p["id"] in extra: out+="\n"+extra[p["id"]]+"\n"
        out+="\n"
    else: nas+="* **%s** %s: %s\n"%(p["id"],p["title"],na[p["id"]])
seeds="| change | property | caught by its check | needs |\n|---|---|---|---|\n"
for f in sorted(glob.glob(root+"/seeded/*/meta.json")):
    m=json.load(open(f)); c=m.get("caught","yes")
    seeds+="| %s | %s | %s | %s |\n"%(f.split("/")[-2],m["property"],c,m["needs"].replace("|","/").replace("\n"," "))
out+=open(d+"tail.md").read().replace("@NA@\n",nas).replace("@SEEDS@\n",seeds)
open(root+"/DESIGN.md","w").write(out)
