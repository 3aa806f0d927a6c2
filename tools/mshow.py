import json,sys
st=sys.argv[2] if len(sys.argv)>2 else "missed"
for l in open(sys.argv[1]):
    r=json.loads(l)
    if r["status"]==st: print(r["line"],r["where"],r["desc"],"|"," ".join(x.strip() if False else x for x in r.get("diff","").split("\n"))[:230],r.get("broke") if st.startswith("broken") else "")
