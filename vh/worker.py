"""One worker process: explores part of a property's plans with Hypothesis.

usage: python -m vh.worker PROP TIER SEED INDEX NWORKERS OUT.json DEADLINE_S
       python -m vh.worker PROP replay FILE OUT.json
"""
import faulthandler, importlib, json, os, sys, time, traceback

import vh.boot as boot
from vh import core, priv


def run(prop_id, tier, seed, index, nworkers, deadline_s):
    import hypothesis
    from hypothesis import settings, HealthCheck, Phase, given

    prop = importlib.import_module('vh.props.' + prop_id.lower())
    scratch = core.Scratch()
    stats = core.Stats()
    state = {'fail': None, 'shrink_until': None, 'failing': {}, 'harness_error': None, 'stopped': False}
    t_end = boot.real_time() + deadline_s
    result = {'status': 'ok'}

    def attempt(plan):
        """A violation message, or None."""
        now = boot.real_time()
        h = core.plan_hash(plan)
        if state['shrink_until'] is not None and now > state['shrink_until'] and h not in state['failing']:
            return None
        if state['fail'] is None and now > t_end:
            state['stopped'] = True
            return None
        state['current'] = plan
        msg = core.execute_case(prop, plan, scratch, stats)
        if msg is not None:
            state['failing'][h] = msg
            if state['fail'] is None or len(core.canon(plan)) <= len(core.canon(state['fail'][0])):
                state['fail'] = (plan, msg)
            if state['shrink_until'] is None:
                state['shrink_until'] = now + getattr(prop, 'SHRINK_SECONDS', 25)
        return msg

    try:
        # saved failures of earlier campaigns first (fast, library-free)
        reg = os.path.join(core.VERIF, 'regress', prop_id)
        if os.path.isdir(reg):
            for k, name in enumerate(sorted(os.listdir(reg))):
                if k % nworkers == index:
                    with open(os.path.join(reg, name)) as f:
                        plan = json.load(f)['plan']
                    stats_before = stats.labels.get('saved cases', 0)
                    stats.labels['saved cases'] = stats_before + 1
                    msg = core.execute_case(prop, plan, scratch, stats)
                    if msg is not None:
                        state['fail'] = (plan, msg)
                        break

        fixed = getattr(prop, 'fixed_plans', None)
        if state['fail'] is None and fixed is not None:
            for k, plan in enumerate(fixed(tier)):
                if k % nworkers == index:
                    msg = core.execute_case(prop, plan, scratch, stats)
                    if msg is not None:
                        state['fail'] = (plan, msg)
                        break

        if state['fail'] is None:
            n = prop.BUDGET[tier] // nworkers + 1
            strategy = prop.strategy(tier)

            @hypothesis.seed(seed * 1000 + index)
            @settings(max_examples=n, database=None, deadline=None, print_blob=False, report_multiple_bugs=False,
                      phases=(Phase.generate, Phase.shrink),
                      suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large, HealthCheck.large_base_example])
            @given(strategy)
            def search(plan):
                msg = attempt(plan)
                if msg is not None:
                    raise core.Violation(msg)

            try:
                search()
            except core.Violation:
                pass
            except BaseException as e:      # pylint: disable=broad-except
                # Flaky-style complaints while shrinking do not matter: the kept plan is re-executed below
                if state['fail'] is None or isinstance(e, (KeyboardInterrupt,)):
                    raise

        if state['fail'] is not None:
            plan, msg = state['fail']
            again = None
            for _ in range(3):
                again = core.execute_case(prop, plan, scratch)
                if again is not None:
                    break
            if again is None:
                result = {'status': 'error', 'error': 'violation did not reproduce: ' + msg, 'plan': plan}
            else:
                result = {'status': 'violation', 'message': again, 'plan': plan}
    except core.CaseTimeout as e:
        result = {'status': 'error', 'plan': state.get('current'), 'error': 'a case exceeded %d s\n%s' % (
            core.CASE_SECONDS, ''.join(traceback.format_tb(e.__traceback__)[-8:]))}
    except BaseException:                   # pylint: disable=broad-except
        result = {'status': 'error', 'error': traceback.format_exc()[-6000:]}
    finally:
        fin = getattr(prop, 'worker_end', None)
        if fin is not None:
            fin()
        os.chdir('/')
        scratch.close()
    result['stats'] = stats.as_dict()
    result['stopped'] = state['stopped']
    return result


def replay(prop_id, plan):
    prop = importlib.import_module('vh.props.' + prop_id.lower())
    scratch = core.Scratch()
    try:
        return {'status': 'ok', 'message': core.execute_case(prop, plan, scratch)}
    except BaseException:                   # pylint: disable=broad-except
        return {'status': 'error', 'error': traceback.format_exc()[-6000:]}
    finally:
        os.chdir('/')
        scratch.close()


def main():
    if sys.argv[2] == 'replay':
        with open(sys.argv[3]) as f:
            plan = json.load(f)['plan']
        priv.drop()
        res = replay(sys.argv[1], plan)
        with open(sys.argv[4], 'w') as f:
            json.dump(res, f)
        os._exit(0)
    prop_id, tier, seed, index, nworkers, out, deadline = sys.argv[1:8]
    faulthandler.enable()
    unprivileged = priv.drop()
    res = run(prop_id, tier, int(seed), int(index), int(nworkers), float(deadline))
    res['unprivileged'] = unprivileged
    with open(out + '.tmp', 'w') as f:
        json.dump(res, f)
    os.rename(out + '.tmp', out)
    sys.stdout.flush()
    os._exit(0)


if __name__ == '__main__':
    main()
