"""Writes DESIGN.md from tools/design_head.md, the harnesses and tools/design_tail.md."""
import subprocess
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# the oracle of each property: what the assertion compares with
ORACLE = {
    "C01": "a counter in the observer: events after its first terminal event must be 0.",
    "C02": "a re-entrancy counter in the observer must be 0; grammar counter 0; the delivered multiset and per-producer order are compared with what was sent before the end.",
    "C03": "number of observer events at the moment dispose returned = number at the end; live subscriptions on every source that has not ended = 0.",
    "C04": "live subscriptions on every source that has not ended = 0 whenever the observer has terminated.",
    "C05": "self-composition: the same symbolic events are played to one subscription alone and to two interleaved ones; the observations must be equal.",
    "C06": "self-composition: the same symbolic prefix without the error gives the values owed; with the error the observer must get those and then the same exception object.",
    "C07": "the raised object must be in the observer's errors or have been raised by the producer's await; the delivered values are compared with those of the other elements.",
    "C08": "what each (slow) observer has finished at the instant the awaited call returns; with real durations also the exact time the call took.",
    "C09": "list of the uninterpreted callback's results, number of callback calls.",
    "C10": "list comprehension over the uninterpreted predicate, number of callback calls.",
    "C11": "Python list slices of the symbolic values.",
    "C12": "Python list slicing with the same (symbolic) start, stop and step.",
    "C13": "symbolic comparison of neighbours.",
    "C14": "left fold of the uninterpreted accumulator.",
    "C15": "enumerate / zip of the symbolic values.",
    "C16": "a reference list of the values in arrival order; completion counted over outer and inner sources.",
    "C17": "a reference queue: live count <= n, subscription order, concatenation.",
    "C18": "a reference machine holding the latest inner source.",
    "C19": "a reference machine holding the two latest values.",
    "C20": "a reference machine holding the other's latest value.",
    "C21": "a reference machine: values before the first value of the other.",
    "C22": "a reference machine over attempts; number of subscriptions counted.",
    "C23": "arrival time + d for each event, exact over the reals.",
    "C24": "the set of values whose successor is at least d later, at arrival + d, exact over the reals.",
    "C25": "first + k * period, exact over the reals.",
    "C26": "the list / exception given to the creation function.",
    "C27": "the list / result / exception of the awaitable or async iterable.",
    "C28": "a reference subject: list of observers, stopped and disposed flags.",
    "C29": "a reference FIFO of events that wait for the observer.",
    "C30": "what the async for loop collected against what was sent; which producer awaits have returned.",
    "C31": "last value / exception / timeout, live subscriptions after return.",
    "C32": "the due time symbolically computed for each callback, and the stable order by due time.",
    "C33": "self-composition: method form against function form on the same events.",
    "C34": "the RxPY observer's events against the source's.",
    "C35": "kind and content.",
    "C36": "the scheduled (symbolic) times and the recorded ones.",
}


def harnesses():
    """What is registered, from the registry itself."""
    sys.path.insert(0, HERE)
    import check

    code = ("import sys, json; sys.path.insert(0, %r)\n"
            "from symx import env, registry\n"
            "env.install(); hs = registry.load()\n"
            "print(json.dumps({p: [[e.fn.__module__.split('.')[-1] + '.py', e.name, e.bounds] for e in es] for p, es in hs.items()}))" % HERE)
    out = subprocess.run([check._python(), "-B", "-c", code], capture_output=True, text=True, check=True, cwd=HERE, env=dict(os.environ, PYTHONHASHSEED="0", VERIF_CHILD="1"))
    return json.loads(out.stdout.strip().splitlines()[-1])


def main():
    props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
    hs = harnesses()
    text = [open(os.path.join(HERE, "tools", "design_head.md")).read()]
    for p in props:
        i = p["id"]
        text.append(f"### {i} {p['title']}\n")
        text.append(f"{p['statement']}\n")
        text.append(f"*Oracle:* {ORACLE[i]}  \n*Beyond the tests:* {p['why_tests_cant']}.\n")
        text.append("*Harnesses and bounds (quick tier; the thorough tier raises the sizes):*\n")
        for fn, name, b in hs.get(i, []):
            text.append(f"- `{fn[:-3]}.{name}`: {b or 'see the source'}")
        text.append("")
    text.append(open(os.path.join(HERE, "tools", "design_tail.md")).read())
    missed = {}  # planted bug -> why its check does not catch it
    sd = os.path.join(HERE, "seeded")
    text.append("| bug | property | what it breaks | needs | its check |\n|---|---|---|---|---|")
    rows = []
    for d in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
        m = json.load(open(os.path.join(sd, d, "meta.json")))
        rows.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {missed.get(d, 'caught')} |")
    text[-1] += "\n" + "\n".join(rows) + "\n"
    with open(os.path.join(HERE, "DESIGN.md"), "w") as f:
        f.write("\n".join(text))


main()
