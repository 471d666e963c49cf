import json, sys
P = "/verif/properties.jsonl"
def add(id, title, statement, over, text, why, files, mechanism, observe):
    rows = [json.loads(l) for l in open(P) if l.strip()]
    rows = [r for r in rows if r["id"] != id]
    rows.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                     anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism], observe_at=observe)))
    rows.sort(key=lambda r: r["id"])
    assert len(title) <= 80
    open(P, "w").write("".join(json.dumps(r) + "\n" for r in rows))
