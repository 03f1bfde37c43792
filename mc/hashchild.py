"""Run in a child process under another PYTHONHASHSEED: schedules the given (scheduler, world) pairs and prints the results."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env  # noqa: E402

env.setup()
from mc import sched  # noqa: E402


def main():
    res = []
    for s, w in json.load(sys.stdin):
        try:
            wg, recs, r = sched.run(w, s, w.get('start', 0))
            out = 'refused' if recs is None else [sorted([k, v['start'], v['finish'], v['con'], sorted(v['team'].items())]
                                                         for k, v in x.items()) for x, _ in recs]
            if recs and w.get('rows', 1):
                out += [list(x.full_schedule_df.task_id) for x in r] + [list(r[0].unite_stages().full_schedule_df.task_id)]
            res.append(out)
        except Exception as e:
            res.append('%s: %s' % (type(e).__name__, str(e)[:200]))
    print(json.dumps(res))


main()
