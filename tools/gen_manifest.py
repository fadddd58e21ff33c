"""Writes MANIFEST.json from the property modules that exist."""
import importlib, json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)

TECH = {
 'C01': ('stateful model-based property testing of protocol histories', 'histories of up to ~45 requests by up to 3 connections, several users, restarts, deaths of the server at any line; every version re-read at the end'),
 'C02': ('stateful model-based property testing of protocol histories', 'change log, chain and folded changes compared with a model for every pair (version, newest); deaths of the server at any line included'),
 'C03': ('generated commits with enumerated crash points (system calls), recovery checked against a model', 'each crash point is a kill before or half way through a disk-changing system call; power loss (lost page cache) is not simulated'),
 'C04': ('stateful model-based property testing, object-set invariant', 'object set compared before begin and after every abort, stale begin and displacement, also after deaths of the server at any line'),
 'C05': ('stateful model-based property testing, store invariant', 'every stored object rehashed after every commit, also after deaths of the server at any line'),
 'C06': ('property testing with generated damage', 'every reachable object may be altered, truncated, swapped, emptied or removed; oracle: never reported valid'),
 'C07': ('stateful property testing of repositories with garbage, open commits and collections that overlap requests', 'object set after collection compared with an independent reachability walk; overlapping collections are scheduled at lines, never inside a database transaction'),
 'C08': ('stateful property testing of request interleavings, and of requests that overlap under a generated schedule', 'switches between clients at generated lines, calls and requests; never inside a database transaction or statement'),
 'C09': ('stateful property testing of request interleavings, and of requests that overlap under a generated schedule', 'as C08; connection endings are disconnects, exceptions, restarts and deaths at any line'),
 'C10': ('stateful model-based property testing of interrupted and resumed commits', 'uploads reported on resume and final contents compared with a model; interruptions include deaths of the server at any line'),
 'C11': ('stateful property testing of login attempts with a moving clock, alone and overlapping', 'forged, replayed, expired, cross-address, cross-user and cross-repository attempts against a model of tokens; strength of the signature scheme itself is trusted'),
 'C12': ('stateful property testing of sessions with a moving clock, all routes', 'model of live sessions decides acceptance of every route'),
 'C13': ('grammar-based and mutational fuzzing of paths, ids and lists', 'sentinels outside the repository, history inside it, and continued service are the oracle'),
 'C14': ('property testing against a decision table', 'all status pairs, generated change sets'),
 'C15': ('stateful property testing against a set-difference model', 'real client status command on generated trees'),
 'C16': ('stateful model-based testing of several real clients', 'working copies compared with a model after every update and commit'),
 'C17': ('stateful model-based testing of conflicts and resolutions', 'all three ways of resolving, malformed resolution files and cancellation'),
 'C18': ('generated updates with enumerated crash points and refused requests', 'kill at disk-changing system calls, then re-run; compared with the uninterrupted update'),
 'C19': ('generated interrupted commits, further edits, re-run', 'kill at disk-changing system calls and at every request, further edits, update and commit'),
 'C20': ('property testing with edits injected between requests of a commit', 'every request boundary of the commit and every part of an upload is a possible edit point'),
 'C21': ('stateful model-based testing of partial checkouts', 'filters of both kinds, with commits by full and partial clients'),
 'C22': ('stateful model-based testing of revert', 'patterns, versions, --all, answers'),
 'C23': ('property testing of checkout', 'repositories, keys with and without password, wrong credentials'),
 'C24': ('generated transactions with enumerated crash points', 'kill at every disk-changing system call, repeated kills in recovery'),
 'C25': ('generated operations with injected failures and crash points', 'failing downloads, failing system calls and kills'),
 'C26': ('differential property testing over adversarial in-memory sockets', 'generated segmentation and partial sends'),
 'C27': ('property testing with the connection cut at generated byte positions', 'bounded termination is counted in reads after end of stream'),
 'C28': ('stateful property testing against a fake object store with injected failures', 'the S3 service is modelled by a fake with paging, multipart and failures'),
 'C29': ('round-trip and tamper fuzzing', 'libsodium is trusted; plaintext leakage is searched for in everything stored'),
 'C30': ('property testing of key generation and tampering', 'libsodium is trusted'),
 'C31': ('differential testing of migrated against native working copies, with interruption', 'old layouts are synthesised from the migration code and its readers'),
 'C32': ('property testing with real concurrent processes', 'client processes parked inside a request, at a question or in a checkout, killed or finished, and lookups from generated directories'),
}

checks, na = [], []
ids = [json.loads(l)['id'] for l in open(os.path.join(here, 'properties.jsonl'))]
for pid in ids:
    if os.path.exists(os.path.join(here, 'vh', 'props', pid.lower() + '.py')):
        src = open(os.path.join(here, 'vh', 'props', pid.lower() + '.py')).read()
        level = [l.split("'")[1] for l in src.split('\n') if l.startswith('LEVEL')][0]
        checks.append({'property': pid, 'quick_cmd': './check %s --tier quick' % pid, 'thorough_cmd': './check %s --tier thorough' % pid,
                       'evidence_file': 'evidence/%s.json' % pid, 'technique': 'property-based testing and fuzzing: ' + TECH[pid][0],
                       'level': level, 'level_note': 'Generated-input search, no proof of absence. ' + TECH[pid][1][0].upper() + TECH[pid][1][1:] + '.'})
    else:
        na.append({'property': pid, 'reason': 'check under construction'})
out = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
       'notes': 'No hooks in /repo. Checks import the working tree of /repo directly (Python, nothing to build); the crash library is compiled on demand.'}
json.dump(out, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not claimed')
