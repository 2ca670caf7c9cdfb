import sys, json
for l in sys.stdin:
    if not l.startswith('RESULT '): print(l, end=''); continue
    d = json.loads(l[7:])
    for r in d['results']:
        bad = [o for o in r['obligations'] if not o['ok']]
        print('%-50s %-11s obl=%d bad=%d loops=%d %.1fs %s' % (r['function'], r['status'], len(r['obligations']), len(bad), r['loops'], r['secs'], r['reason'][:150]))
        for o in bad: print('      FAIL', o['how'], o['name'], '|', o['where'], '|', o['detail'][:600])
    print(d['stats'], d['secs'])
