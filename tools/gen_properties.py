"""Writes /verif/properties.jsonl (one place to edit the property list)."""
import json, os

P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': qtext},
        'why_tests_cant': why,
        'anchors': {
            'files': files,
            'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
            'mechanism': [dict(zip(('name', 'where'), m)) for m in mechanism],
            'observe_at': list(observe), 'hook_needed': hook}})

VS  = 'bversion/storage/versioned_storage.py'
SDB = 'bversion/storage/server_db.py'
SRV = 'bversion/server.py'
CL  = 'bversion/client.py'
CDB = 'bversion/storage/client_db.py'
CFI = 'bversion/storage/client_filesystem_interface.py'
JFS = 'bversion/storage/journaling_filesystem.py'
MRG = 'bversion/merge_client_and_server_changes.py'
CMN = 'bversion/common.py'
RM  = 'bversion/repo_manager.py'
HS, HC, HR, HM = ('bversion/http/http_server.py', 'bversion/http/http_client.py',
                  'bversion/http/client_http_request.py', 'bversion/http/http_common.py')
BC, BP, BF, BS = ('bversion/backup/crypto.py', 'bversion/backup/pipeline.py',
                  'bversion/backup/pipeline_common.py', 'bversion/backup/s3_interface.py')
CR  = 'bversion/crypto.py'

# ------------------------------------------------------------------ server storage
prop('C01', 'Committed versions are faithful and immutable',
     'Once a commit succeeds, listing the files of that version and fetching any of them returns exactly the paths and bytes '
     'the committer sent (plus everything inherited unchanged from the parent version), and fetching a path that is not in the '
     'version is refused. This stays true of every version, whatever commits, aborted commits, abandoned commits or server '
     'restarts come later.',
     ['histories', 'inputs'],
     'every sequence of commits (adds, changes, deletions, file/directory swaps, duplicate contents, any file content and path), '
     'aborts, abandoned connections and restarts; every version and every path in it',
     'The system test walks one fixed history with five small files in the root directory and looks only at the newest version; '
     'nested directories, old versions, restarts and swaps are never read back.',
     [VS, SDB, SRV],
     [('tree building, flattening and object writing', VS + ': build_dir_tree / flatten_dir_tree / write_dir_tree / write_index_object'),
      ('file objects are stored under their hash', VS + ': fs_put_from_file'),
      ('commit state', SDB + ': get_commit_state')],
     [('head', 'hash of the newest commit', '<repo>/head'), ('index/, files/', 'immutable objects', '<repo>/index, <repo>/files')],
     ['server.endpoint list_files / pull_file / list_versions'])

prop('C02', 'The change log and version chain describe history exactly',
     'Each commit records the version it was made on, the authenticated user who made it, the commit message, and exactly the '
     'paths it pushed or deleted, each marked new, changed or deleted relative to its parent. The changes the server reports '
     'between any earlier version and the newest one, applied to the files of the earlier version, give exactly the files of the '
     'newest, and the version list is the unbroken parent chain, newest first.',
     ['histories', 'inputs'],
     'every commit history, every pair (earlier version, head), every combination of pushes and deletions within one commit, any commit message',
     'test_get_changes_since uses two add-only commits; no test composes changes over several commits, or mixes add/change/delete/re-add of one path.',
     [VS, SDB, SRV],
     [('status assignment and change table', SDB + ': add_to_commit / remove_from_commit / get_active_commit_changes'),
      ('folding the change logs', VS + ': get_changes_since'),
      ('walk of the parent chain', VS + ': get_commit_chain')],
     [('active_commit_changes', 'changes of the open commit', SDB)],
     ['server.endpoint find_changed / list_changes / list_versions'])

prop('C03', 'A server crash at any instant leaves the repository consistent',
     'If the server process dies at any point while it is serving a commit, the newest version is afterwards either the one before '
     'the commit or the complete new one, and every version remains listable and fetchable with its exact contents and passes '
     'verification. After a restart, any client that is up to date can commit again, with a correct result.',
     ['crash_points', 'histories'],
     'every system call that changes the disk (file writes, renames, unlinks, database commits; including torn writes) during begin, push, delete, commit, '
     'abort and roll-back, for generated commits, and repeated crashes',
     'Only an explicit rollback call without a crash is tested (test_rollback); no test stops the server part way through anything.',
     [VS, SDB, SRV],
     [('write-then-rename of objects and head', VS + ': write_index_object / commit'),
      ('log of new objects, rollback', VS + ': rollback, ' + SDB + ': gc_log_item'),
      ('rollback or resume at the next begin', SRV + ': begin_commit')],
     [('gc_log', 'objects created by the open commit', SDB), ('active_commit_exists', 'an open commit', SDB)],
     ['repository directory after a kill', 'server.endpoint'],
     'none: a preloaded library counts system calls and kills the process')

prop('C04', 'An aborted commit leaves no trace and destroys nothing',
     'When a commit is aborted, refused as out of date, or displaced by another user, the newest version, all history, and the set '
     'of stored objects are exactly what they were before that commit was begun: everything it uploaded is removed, and nothing any '
     'version refers to is removed.',
     ['histories', 'inputs'],
     'every interleaving of successful and abandoned commits, including uploads whose content is already stored or is uploaded several times',
     'test_rollback covers one abort with one shared object through the storage class, not through the server, and never two abandoned commits in a row.',
     [VS, SDB, SRV],
     [('only objects that did not exist are logged for removal', VS + ': fs_put_from_file / write_index_object'),
      ('rollback', VS + ': rollback'), ('who triggers it', SRV + ': begin_commit / commit')],
     [('gc_log', 'objects to remove on rollback', SDB)],
     ['object directories before and after', 'server.endpoint'])

prop('C05', 'Objects are content addressed, stored once, and never altered',
     'Every stored file content and index record is kept under the SHA-256 of its exact bytes, and any distinct content is stored '
     'once however many files, versions or users upload it. Once stored by a successful commit an object is never modified or removed.',
     ['histories', 'inputs'],
     'every upload history with repeated contents within a commit, across commits, across users, and after aborts; contents of any size incl. empty and block-size boundaries',
     'The tests check that two contents exist under their hashes after one commit; they do not enumerate the store or repeat contents across aborted commits.',
     [VS, CMN, SRV],
     [('hashing', CMN + ': hash_file'), ('existence check before storing', VS + ': fs_put_from_file / write_index_object')],
     [('index/, files/', 'object store', '<repo>/index, <repo>/files')],
     ['object directories'])

prop('C06', 'Verification accepts sound repositories and never a damaged one',
     'Verifying a repository in which nothing has been damaged reports it valid. If any object that some version needs has been '
     'altered, truncated, replaced, or removed, verification never reports the repository valid.',
     ['inputs', 'fault_sequences'],
     'every repository history and every single or multiple damage (bit flips, truncation, extension, swapped, emptied or deleted objects, lost head) to stored objects',
     'verify_fs has no test at all.',
     [VS, RM],
     [('reachability and rehash', VS + ': verify_fs / get_reachable_objects / get_all_object_hashes'), ('verify command', RM + ': run')],
     observe=['versioned_storage.verify_fs', 'bvn_repo verify'])

prop('C07', 'Garbage collection removes exactly the unreachable objects',
     'Garbage collection removes every stored object that no version needs, and never one that a version or a commit that can still '
     'be resumed needs. After it all versions read as before, an interrupted commit can still be resumed and completed, the '
     'repository verifies, and commits are not left locked out.',
     ['histories', 'fault_sequences'],
     'every history combined with stray objects, interrupted uploads and open commits at the time of collection',
     'garbage_collect has no test at all.',
     [VS, RM],
     [('reachability', VS + ': get_reachable_objects'), ('collection', VS + ': garbage_collect'), ('gc command', RM + ': run')],
     observe=['object directories', 'bvn_repo gc'])

# ------------------------------------------------------------------ server protocol
prop('C08', 'Commits are serialised; out-of-date clients cannot commit',
     'However the requests of concurrent clients interleave, the successful commits of a repository form one linear chain in which '
     'each was made on the version that was newest at the time, so no commit silently undoes another. A commit attempt based on any '
     'other version is refused without effect, and until a commit completes everyone else still sees the previous version.',
     ['schedules', 'histories'],
     'every request-level interleaving of several connections (begin, push, delete, commit, abort, reads, disconnects) from several users',
     'The system test has one connection at a time; begin/commit from two connections never overlap.',
     [SRV, VS, SDB],
     [('revision check under the lock', SRV + ': begin_commit'), ('atomic head update', VS + ': commit'), ('repository lock', VS + ': lock / unlock')],
     [('head', 'newest version', '<repo>/head')],
     ['server.endpoint'])

prop('C09', 'Only the connection holding the commit lock can change a repository',
     'At most one connection at a time holds the right to commit to a repository; pushes, deletions, commits and aborts from any '
     'other connection are refused and change nothing, including from a connection that holds the lock of a different repository. '
     'The right is given up when its commit completes or is aborted and when its connection ends for any reason, after which another '
     'client can begin.',
     ['schedules', 'histories'],
     'every interleaving of requests and disconnects over several connections, users and repositories',
     'The tests release the lock by hand and never attempt a write from a connection that does not hold it.',
     [SRV, VS, HS],
     [('per-connection lock flag', SRV + ': begin_commit / push_file / delete_files / commit'), ('flock', VS + ': lock / unlock'),
      ('release on disconnect', HS + ': HTTPServer')],
     [('context.lock', 'this connection holds the lock', HS)],
     ['server.endpoint'])

prop('C10', 'A resumed commit contains exactly what its committer settled on',
     'When an interrupted commit is begun again, the server resumes it only for the same authenticated user at the same address, and '
     'tells that client every uploaded file it still holds. The commit then produced is the parent version plus those uploads, as '
     'overridden by the files pushed and deleted after resuming: earlier deletions, stale uploads or other people\'s uploads never '
     'leak into it, and a file may be pushed or deleted again any number of times.',
     ['histories', 'fault_sequences'],
     'every sequence of pushes/deletions of overlapping paths spread over any number of interrupted attempts by one or several users, before a final commit',
     'One resume is tested: three files, same contents, nothing deleted or changed in between.',
     [SRV, SDB, VS],
     [('resume or roll back', SRV + ': begin_commit'), ('change table', SDB + ': add_to_commit / remove_from_commit / resume_commit')],
     [('active_commit_changes', 'uploads and deletions so far', SDB)],
     ['server.endpoint begin_commit / commit / list_files'])

prop('C11', 'Sessions are only given to permitted users who prove their key',
     'A new session is given only in exchange for a server-issued login token signed with the private key of a configured user who may '
     'use that repository. A login token works at most once, only from the address it was issued to, only for the repository it was '
     'issued for, and not once it has expired (30 seconds); every other attempt is refused and yields no session, and a valid session '
     'can be re-validated only from its own address while unexpired.',
     ['inputs', 'histories'],
     'every combination of user, key, token (fresh, used, foreign, expired, tampered), signature, address, repository and clock movement, in any order',
     'Tests only ever log in the one configured user successfully.',
     [SRV, SDB],
     [('challenge, verify, consume', SRV + ': begin_auth / authenticate'), ('token table', SDB + ': issue_token / get_token / delete_token / gc_tokens / validate_session')],
     [('tokens, session_tokens', 'live credentials', SDB)],
     ['server.endpoint begin_auth / authenticate'])

prop('C12', 'Every repository operation requires a live session with permission',
     'Every operation that reads or changes a repository is refused, reveals nothing and changes nothing, unless it carries a session '
     'that this server gave out for that repository to a user still permitted to use it, presented from the address it was given to, '
     'and used within the last two hours. A session in regular use does not expire, and neither does that of the client whose commit is in progress.',
     ['inputs', 'histories', 'configurations'],
     'every operation x every kind of credential (none, forged, truncated, other address, other repository, expired, revoked user) x clock movement',
     'No test sends a request with bad credentials.',
     [SRV, SDB],
     [('check on each route', SRV + ': have_authenticated_user'), ('session table', SDB + ': get_session_token / gc_session_tokens / update_session_token_expiry')],
     [('session_tokens', 'live sessions', SDB)],
     ['server.endpoint, all routes'])

prop('C13', 'Hostile names and identifiers cannot reach outside the repository',
     'Whatever path, version identifier or deletion list an authenticated client sends, the server never reads, discloses, creates, '
     'alters or removes a file outside the repository\'s own directory, nor alters history inside it. Version identifiers that do '
     'not name an existing commit, paths containing "." or ".." components, and unknown paths are refused, and the server goes on serving.',
     ['inputs'],
     'arbitrary (fuzzed) path, version id and request bodies on every route',
     'No test sends anything malformed.',
     [SRV, VS],
     [('component check', SRV + ': push_file'), ('hex check and type check', VS + ': read_index_object'), ('lookup in tree only', VS + ': get_file_info_from_path')],
     observe=['server.endpoint', 'file system around the repository'])

# ------------------------------------------------------------------ client
prop('C14', 'Merging client and server changes misplaces no file',
     'For any set of server changes and client changes, every changed path lands in exactly one action: send, fetch, delete on client, delete '
     'on server, conflict, error or nothing, and each action list is sorted. A path changed or deleted on one side only is never a conflict, a path '
     'changed on both sides (or deleted on one and changed on the other) is always a conflict carrying both statuses, and the action depends only on the two statuses of that path.',
     ['inputs'],
     'every pair of change sets over any number of paths with every combination of statuses',
     'The test enumerates single-path cases only and looks at list lengths; mixes, details of entries and sorting are not checked.',
     [MRG],
     [('classification', MRG + ': merge_client_and_server_changes')],
     observe=['merge_client_and_server_changes'])

prop('C15', 'Local change detection reports exactly what changed',
     'The status of a working copy lists exactly the files that are new, modified (different modification time) or missing relative to the last synchronised '
     'state, at any depth and with any name, and nothing else; files matched by an ignore rule and the client\'s own metadata are left out, '
     'as if absent. An untouched working copy has no changes.',
     ['inputs', 'histories'],
     'every directory tree, manifest and ignore file (wildcards, nested, unicode and odd names), any sequence of edits between scans',
     'Four hand-written manifests with two files; scanning, persistence of time stamps, nesting and ignore rules are untested except one ignore case.',
     [CMN, CL, CDB],
     [('diff', CMN + ': find_manifest_changes'), ('scan', CMN + ': get_file_list'), ('ignore', CL + ': find_local_changes'), ('time stamps round trip', CDB)],
     [('files table', 'manifest of last synchronised state', CDB)],
     ['bvn status', 'client.find_local_changes'])

prop('C16', 'Working copies converge and local edits survive updates',
     'After an update without conflicts a working copy holds exactly the newest version on the server, except that files the user has changed, added or '
     'deleted locally stay as the user left them. After a successful commit the newest version on the server holds exactly the tracked files of '
     'the committing working copy, so once all clients have committed and updated, all hold identical trees.',
     ['histories', 'inputs'],
     'every sequence of edits, commits and updates (plain and full) by several working copies with any tree shapes, including file/directory swaps and delete/re-add',
     'One scripted two-client scenario with flat names.',
     [CL, SRV, MRG, CFI],
     [('update', CL + ': update'), ('commit', CL + ': commit'), ('change discovery', SRV + ': find_changed')],
     [('manifest, have_revision', 'what the client believes it has', CDB)],
     ['working copy directories', 'server versions'])

prop('C17', 'Conflicts are detected and resolved exactly as chosen',
     'Whenever a file was changed or deleted both locally and on the server since the last update, update reports a conflict and neither side\'s '
     'version is lost before the user chooses; a cancelled, incomplete or malformed resolution changes nothing. With a choice (all-client, all-server, or per file through the '
     'resolution file) the file ends up locally as the chosen side has it, the next commit publishes exactly that, and all other files are updated as usual.',
     ['histories', 'inputs'],
     'every combination of conflicting and non-conflicting changes over any paths, every resolution mode and per-file choice, repeated and interrupted resolutions',
     'Four fixed conflicts with fixed names and one resolution pattern per mode.',
     [CL, SRV, MRG],
     [('resolution', CL + ': resolve_update_conflicts'), ('applying', CL + ': update')],
     [('conflict_resolution', 'file the user edits', '.bvn/conflict_resolution')],
     ['working copy', 'server versions'])

prop('C18', 'An interrupted update loses nothing and completes when re-run',
     'If an update stops at any point (killed, connection lost, server refusing a download) every file in the working copy is in its old or its new state, whole, '
     'and local edits are untouched. Running update again ends in the same state as an uninterrupted update, without inventing conflicts.',
     ['crash_points', 'fault_sequences', 'histories'],
     'every disk-changing system call and every request of generated updates with fetches, deletions and local edits; repeated interruptions',
     'One kill between two file fetches is tested.',
     [CL, CFI, JFS, CDB],
     [('journal', JFS), ('manifest hash check to skip finished files', CL + ': update'), ('revision recorded last', CL + ': update')],
     [('journal table', 'undo log', CDB), ('have_revision', 'version the client has', CDB)],
     ['working copy', '.bvn'],
     'none: a preloaded library counts system calls and kills the process')

prop('C19', 'An interrupted commit can be redone with an exact result',
     'If a commit stops part way (client killed, connection lost, upload failing) and the user goes on editing any files, later runs of update and commit '
     'succeed, and the version finally committed holds exactly the files of the working copy. This also holds when the interrupted commit was made from another working copy of the same user.',
     ['fault_sequences', 'histories'],
     'every interruption point (request, or part of an upload) x every edit of the same or other files afterwards x any number of retries from one or two working copies',
     'One interruption after two of three files with no edits before the retry.',
     [CL, SRV, SDB],
     [('partial commit list', SRV + ': begin_commit'), ('re-use check by hash', CL + ': commit'), ('change table', SDB)],
     [('active_commit_changes', 'uploads so far', SDB)],
     ['server versions', 'working copy', 'bvn status'])

prop('C20', 'Edits made while a commit is running are never lost',
     'If files are edited, added or deleted while a commit is in progress, each edit is either part of the committed version or is reported as a '
     'local change afterwards and goes into the next commit. It is never recorded as committed when it was not.',
     ['schedules', 'histories'],
     'every edit at every point between the requests of a commit, on files already sent, being sent, or not yet sent',
     'No test modifies a file during a commit.',
     [CL],
     [('manifest update after commit', CL + ': commit')],
     [('files table', 'time stamp recorded for each committed file', CDB)],
     ['bvn status', 'server versions'])

prop('C21', 'Partial checkouts omit files locally and never remove them remotely',
     'Files matching pull-ignore rules are not fetched by updates, and leaving them out never deletes or alters them on the server, in any later commit or update. The pull-ignore '
     'command removes exactly the matching tracked files (or leaves them, as chosen) and nothing else, and once the rules are removed a full update restores every omitted file.',
     ['histories', 'inputs', 'configurations'],
     'every tree, every set of filters (wildcards, relative to any directory), every later history of commits and updates by this and other clients',
     'One pull-ignored root file is tested; the pull-ignore command is untested.',
     [CL],
     [('filters on fetch', CL + ': update'), ('command', CL + ': pull_ignore / normalise_filters'), ('ignored files are not sent', CL + ': init / find_local_changes')],
     [('.bvn_pull_ignore', 'filters', 'working copy')],
     ['working copy', 'server versions'])

prop('C22', 'Revert restores exactly the requested files',
     'Reverting brings exactly the files selected by the given patterns (or all) back to their exact content in the chosen version, including locally deleted ones, and leaves every '
     'other file alone; with --all, tracked files not in that version are removed. A file reverted to the checked-out version is no longer a local change, one reverted '
     'to another version shows as a change to commit, and answering no changes nothing.',
     ['inputs', 'histories'],
     'every tree and set of local edits, every pattern, working directory and version',
     'revert has no test at all.',
     [CL],
     [('selection, confirmation, fetch', CL + ': revert / question_user / normalise_filters')],
     observe=['working copy', 'bvn status'])

prop('C23', 'Checkout creates an exact, usable working copy',
     'Checking out a repository with valid credentials creates a directory named after it that holds exactly the newest version, has no local changes, and can be updated '
     'and committed from as the user who checked it out. With an invalid address, user or key nothing is created.',
     ['inputs', 'histories'],
     'every repository content and name, every user and key, valid and invalid',
     'checkout has no test at all.',
     [CL, CR],
     [('checkout', CL + ': checkout')],
     [('client_configuration.json', 'address, user, key', '.bvn')],
     ['created working copy', 'server versions'])

prop('C24', 'File transactions are all-or-nothing',
     'A group of file writes, moves and deletions performed as one transaction either takes effect completely or, when it is rolled back, fails, or the process dies at any '
     'point in it, leaves every file (after the recovery that precedes the next transaction) with exactly the contents it had before. Recovery may itself be interrupted and repeated.',
     ['crash_points', 'histories', 'inputs'],
     'every sequence of transactions over overlapping files, every rollback point, every disk-changing system call as crash point, including crashes during rollback and commit',
     'Five fixed rollbacks without crashes, checking existence rather than contents.',
     [JFS, CDB],
     [('undo journal written before each action', JFS + ': do_action'), ('recovery', JFS + ': begin / rollback'), ('end of transaction', JFS + ': commit')],
     [('journal table', 'undo records', CDB), ('tmp/, back/', 'saved originals', '.bvn')],
     ['data directory', 'client_db journal'],
     'none: a preloaded library counts system calls and kills the process')

prop('C25', 'A tracked file and its manifest record change together',
     'Storing, moving or deleting a tracked file changes the file and its manifest record together or not at all, whether the operation succeeds, fails part way '
     '(download error, disk error, missing file), or the process dies; files and records not named by the operation never change.',
     ['fault_sequences', 'crash_points', 'histories'],
     'every sequence of put/move/delete on overlapping paths with a failure injected at any file operation or a kill at any system call',
     'client_filesystem_interface is only reached by successful updates in the system test.',
     [CFI, JFS, CDB],
     [('journalled operation plus manifest change in one database transaction', CFI + ': fs_put / fs_move / fs_delete')],
     [('files table', 'manifest', CDB)],
     ['data directory', 'client_db.get_manifest'],
     'none: a preloaded library counts system calls and kills or fails the process')

# ------------------------------------------------------------------ http
prop('C26', 'HTTP transport delivers requests and responses unaltered',
     'For every sequence of requests on a connection the server acts on exactly the route, headers and body bytes the client sent, and the client gets exactly the headers and body the server answered with, '
     'each response to its own request. This holds for bodies of any size and content, streamed files included, however the network splits, merges or partially accepts the bytes.',
     ['inputs', 'schedules'],
     'every sequence of requests, all header values and bodies, every segmentation of both byte streams and every pattern of partial sends',
     'bversion/http is replaced by a mock in the tests; none of it is executed.',
     [HS, HC, HR, HM],
     [('framing', HM + ': parse_headers / read_body'), ('server loop', HS + ': HTTPServer'), ('client', HR + ', ' + HC)],
     observe=['HTTPServer handler and client_http_request over in-memory sockets'])

prop('C27', 'A lost connection is an error, never a hang or a truncated success',
     'If the connection drops (closed or reset, or a client that falls silent) after any byte in either direction, both sides stop with an error in bounded time. A truncated upload is never stored as a file, a truncated download never replaces one, '
     'and the commit lock held by that connection is released so that others can commit.',
     ['fault_sequences', 'inputs'],
     'every cut point in the request and response byte streams of generated sessions',
     'bversion/http is not executed by any test.',
     [HS, HC, HR, HM, SRV, CFI],
     [('read until complete', HM + ': read_body'), ('shutdown handler', HS + ': HTTPServer')],
     observe=['client and server ends of in-memory sockets', 'repository and working copy'])

# ------------------------------------------------------------------ backup
prop('C28', 'Backup followed by restore reproduces the repository',
     'After a backup completes, restoring yields the same newest version and the same complete history, every version with identical files, passing verification; this holds for repeated '
     'incremental backups of a growing repository, and after any number of interrupted or failed backups followed by one that completes. Several repositories in one store do not affect each other. A run never transfers again what the store already holds.',
     ['histories', 'fault_sequences', 'configurations'],
     'every commit history split over any number of backup runs, any failure point in earlier runs, any chunk size, any page size of the remote listing, several repositories',
     'Nothing under bversion/backup nor repo_manager is executed by any test.',
     [RM, BS, BC, BP, BF],
     [('upload order and skip of existing objects', RM + ': backup'), ('restore walk', RM + ': restore'), ('paging', BS + ': list_remote_objects')],
     observe=['fake S3 service', 'restored repository'])

prop('C29', 'Backups are encrypted and tampering is always detected',
     'Any data passed through the backup encryption comes back identical for every length and chunk size, and nothing written to the remote store (other than object names, format header and key salt) '
     'contains or depends on the plaintext in readable form. Restoring with a wrong password, or from an object with any bit of its header or data altered, its chunks reordered or repeated, or cut off inside a chunk, fails rather than yielding different data. '
     'An object cut off between chunks, or a file exchanged for another stored object, makes the restore fail or the verification of what was restored report it.',
     ['inputs', 'fault_sequences'],
     'every content, chunk size and password; every single-byte change, chunk permutation/duplication and cut',
     'bversion/backup is not executed by any test.',
     [BC, BP, BF, BS, RM],
     [('authenticated stream per object, header as associated data', BC + ': streaming_encrypt / streaming_decrypt'), ('format header', BF), ('key derivation', BC + ': preprocess_config / hash_password')],
     observe=['fake S3 service', 'repo_manager.streaming_upload / streaming_download'])

# ------------------------------------------------------------------ keys, misc
prop('C30', 'A generated key works, and only with its password',
     'A generated key pair, unlocked again, yields a private key that signs for the generated public key. If a password was chosen, the stored private key reveals no part of the secret, unlocks only with exactly '
     'that password, and any other password or any alteration of the stored key is rejected. Passwords typed differently the second time are not accepted, and two keys under the same password have nothing in common.',
     ['inputs'],
     'every password (incl. empty, unicode, long), every wrong password and alteration',
     'The tests unlock one unencrypted key, and one encrypted key without checking what comes out.',
     [CR],
     [('keygen and unlock', CR + ': make_keypair / unlock_private_key / hash_password')],
     observe=['crypto.make_keypair / unlock_private_key'])

prop('C31', 'Old-format working copies migrate without losing their state',
     'Opening a working copy written by an older release (old directory and file names, JSON manifest) converts it in place: the version it has, its tracked files and its local changes afterwards '
     'are the same as before, and the next update and commit behave as for a native working copy. Converting happens once; a failed conversion can be repeated.',
     ['histories', 'inputs'],
     'every tree, recorded version, set of local edits and pull-ignore rules at the time of migration',
     'No test contains an old-format working copy.',
     [CL, CDB],
     [('renaming', CL + ': init'), ('manifest conversion', CL + ': update_manifest')],
     observe=['bvn status', 'working copy', 'server versions'])

prop('C32', 'One client at a time works on a working copy',
     'While a client process has a working copy open, any other client command on the same working copy is refused and changes nothing; once the first ends, however it ends, the working copy can be '
     'opened again. Commands find their working copy from any directory inside it and never act on one they are not inside of.',
     ['schedules', 'configurations'],
     'every pair of commands overlapping at any point, every nesting of working copies and current directory',
     'The tests never open a working copy twice, and always from its root.',
     [CL, CMN],
     [('lock file', CL + ': init'), ('lookup', CMN + ': find_bvn_dir')],
     observe=['processes started on one working copy'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    for p in P:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
    with open(out, 'w') as f:
        for p in P: f.write(json.dumps(p, ensure_ascii=False) + '\n')
    print(len(P), 'properties')
