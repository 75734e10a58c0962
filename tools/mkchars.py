"""Character table for letters beyond ASCII used by the generators."""
import json,sys
CH="éÉÀàÎîÇçÂâÊêñÑüÜßÿŸåÅøØжЖπΠ中文日本€😀ıæÆ„“”–\u00a0"
def main(out):
    seen=set()
    with open(out,'w',encoding='utf-8') as f:
        for c in CH:
            if c in seen: continue
            seen.add(c)
            lo=c.lower(); up=c.upper()
            f.write(json.dumps({"c":c,"lo":lo,"up":up,"b":len(c.encode()),"o":ord(c),
              "x":"".join("%%%02x"%b for b in c.encode())},ensure_ascii=False)+"\n")
main(sys.argv[1])
