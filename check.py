#!/usr/bin/env python3
"""Decides one property: check.py ID.  See MANIFEST.json and DESIGN.md."""
import os, sys, traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import build
import registry
import vlib


def main():
    prop = sys.argv[1]
    c = registry.CHECKS[prop]
    ctx = vlib.Ctx(prop)
    code = 2
    try:
        try:
            c['run'](ctx)
        except Exception:
            ctx.recheck()       # was it the library that got in the way?
            if not ctx.violations:
                raise
            traceback.print_exc()
        ctx.evidence(c['level'], rule=c['rule'], assumptions=c.get('assumptions', ()))
        for p, e in ctx.violations:
            print('VIOLATION property=%s replay=%s' % (prop, p))
            print('  ' + e[:600])
        for n in ctx.notes:
            print('# ' + n)
        print('%s: %d scripts, %d events, %d model states, %.1f s' % (
            prop, ctx.cov['scripts'], ctx.cov['events'], ctx.cov['model_states'], __import__('time').time() - ctx.t0))
        code = 1 if ctx.violations else 0
    except build.BuildError as e:
        print('build failed: %s' % e)
    except vlib.CheckError as e:
        print('check failed: %s' % e)
    except Exception:
        traceback.print_exc()
    finally:
        if os.environ.get('VERIF_KEEP'):
            print('work', ctx.work)
        else:
            ctx.close()
    sys.exit(code)


main()
