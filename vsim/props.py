"""Which scenarios decide which property."""

ENGINE_STUB = ['engine processes (scripted USI engines behind simulated pipes)', 'clock', 'thread scheduler']
PROPS = {}


def prop(pid, worlds, real, stub, rule, focus=None, **kw):
    PROPS[pid] = dict(worlds=worlds, focus=focus, real=real, stub=stub, rule=rule, **kw)


prop('C01', [('w_client:ClientHealthy', 6000, 60000)],
     ['cshogi.usi.Engine (client, listeners)'], ENGINE_STUB,
     'seed -> 1..3 clients, each with a script of calls and an engine script; distinct = digest of the event history and the '
     'schedule; non-trivial = at least one client with 3 or more calls')
prop('C02', [('w_client:ClientFaulty', 7000, 60000)],
     ['cshogi.usi.Engine (client, listeners)'], ENGINE_STUB,
     'as C01, plus an engine death / closed output / torn last line at a random point of a random reply')
MATCH_REAL = ['cshogi.cli', 'cshogi.usi.Engine', 'Board and the C++ position code', 'CSA/PGN exporters', 'CSA parser', 'ponder threads']
MATCH_STUB = ENGINE_STUB + ['wall clock', 'record files below write() (real files in a scratch directory, simulated failures)']
MATCH_RULE = ('seed -> match configuration, two scripted engines (styles, scripted lines, endings, timing), openings, faults; '
              'distinct = digest of the event history and the schedule; non-trivial = at least one search was made')

prop('M01', [('w_match:MatchEnds', 800, 40000), ('w_match:MatchHealthy', 300, 20000)], MATCH_REAL, MATCH_STUB, MATCH_RULE, focus=['verdict'])
prop('M02', [('w_match:MatchTally', 1600, 60000)], MATCH_REAL, MATCH_STUB, MATCH_RULE, focus=['tally', 'verdict', 'proto', 'clock'])
prop('M03', [('w_match:MatchPonder', 2000, 60000)], MATCH_REAL, MATCH_STUB, MATCH_RULE, focus=['proto'])
prop('M04', [('w_match:MatchClock', 3000, 80000), ('w_match:MatchPonder', 300, 10000)], MATCH_REAL, MATCH_STUB, MATCH_RULE, focus=['clock', 'verdict'])
prop('M05', [('w_match:MatchDeath', 6000, 150000), ('w_match:MatchPonder', 300, 10000)], MATCH_REAL, MATCH_STUB, MATCH_RULE, focus=['term', 'record'])
prop('R01', [('w_match:MatchRecord', 500, 25000), ('w_match:MatchCrash', 700, 30000)], MATCH_REAL, MATCH_STUB, MATCH_RULE, focus=['record'])
prop('R02', [('w_match:MatchDisk', 2500, 60000)], MATCH_REAL, MATCH_STUB, MATCH_RULE, focus=['disk', 'record'])
prop('L01', [('w_match:League', 700, 30000)], MATCH_REAL + ['command line of cshogi.cli'], MATCH_STUB, MATCH_RULE, focus=['tally', 'proto', 'record', 'clock', 'verdict'])

WEB_REAL = ['cshogi.web.app (server routes, match process, human player)', 'Flask and the page template', 'cshogi.usi.Engine', 'Board and the C++ position code',
            'CSA exporter and parser', 'KIF notation']
WEB_STUB = ENGINE_STUB + ['multiprocessing manager and process (same-process stand-ins, one remote call = one atomic step with delays around it)',
                          'wsgiref server loop (one request at a time, as the real one)', 'browsers and network']
WEB_RULE = ('seed -> players, time control, scripted engines, 1..5 browsers with their think times, network faults and out-of-place requests; distinct = digest of the '
            'event history and the schedule; non-trivial = at least one move was sent by a browser')
prop('W01', [('w_web:WebMatch', 600, 20000), ('w_web:WebDeath', 450, 15000)], WEB_REAL, WEB_STUB, WEB_RULE, focus=['web'])
prop('W02', [('w_web:WebMatch', 900, 20000)], WEB_REAL, WEB_STUB, WEB_RULE, focus=['webm'])
prop('W04', [('w_page:PageMatch', 220, 12000), ('w_page:PageReplay', 260, 12000)],
     ['the scripts of board.html and board.js (run by node)', 'page template', 'cshogi.web.app', 'Flask', 'cshogi.usi.Engine', 'Board', 'CSA parser', 'KIF notation'],
     ['DOM and jQuery (page.js)', 'the people in front of the screens', 'network', 'wsgiref server loop', 'multiprocessing manager', 'engines', 'clocks'],
     'seed -> players, engines, browsers, their habits, network faults; or a recorded game and a walk through it; distinct = digest of the history; non-trivial = at least one move', focus=['page'])
prop('W03', [('w_web:WebReplay', 4000, 100000)], ['cshogi.web.app', 'Flask and the page template', 'CSA parser', 'KIF notation', 'Board'],
     ['wsgiref server loop', 'browser'],
     'seed -> a recorded game (moves, times, evaluations, variations, end), cut off at a random byte in 40 % of the runs; distinct = digest of the history; '
     'non-trivial = at least one move', focus=['replay'])

BOARD_REAL = ['cshogi.Board and its move lists (Cython layer)', 'C++ position, move generation, repetition, mate-in-1 and packing code']
BOARD_STUB = ['thread scheduler (several tasks share the boards; a call into the library is one atomic step, as under the interpreter lock)']
BOARD_RULE = ('seed -> 1..5 boards shared by 1..4 tasks, starting positions, a sequence of calls per task (moves in every notation, take-backs, passes, loads, copies, '
              'half-consumed iterations, queries) and malformed inputs; distinct = digest of the event history and the schedule; non-trivial = at least ten calls')
prop('B01', [('w_board:Boards', 3600, 90000), ('w_board:BoardReject', 900, 20000)], BOARD_REAL, BOARD_STUB, BOARD_RULE, focus=['board'])
prop('B02', [('w_board:Boards', 4600, 110000)], BOARD_REAL, BOARD_STUB, BOARD_RULE, focus=['legal'])
prop('B03', [('w_board:BoardRep', 1500, 40000), ('w_board:Boards', 400, 10000)], BOARD_REAL, BOARD_STUB, BOARD_RULE, focus=['rep'])
prop('B04', [('w_board:BoardReject', 4500, 110000)], BOARD_REAL, BOARD_STUB, BOARD_RULE, focus=['load'])
prop('S01', [('w_mate:Solvers', 1800, 45000)], BOARD_REAL + ['mate_move, is_mate, DfPn, osl.DfPn'], BOARD_STUB,
     'seed -> 1..4 boards and 1..2 solvers shared by 1..4 tasks; searches with node, depth and ply limits that run out anywhere, stop flags, repeated searches, moves in '
     'between; distinct = digest of the event history and the schedule; non-trivial = at least five calls', focus=['mate'])

FILE_REAL = ['CSA/KIF/KI2/PGN exporters', 'CSA/KIF/KI2 parsers (Python and C++)', 'Board and move notation']
FILE_STUB = ['thread scheduler (several record keepers and readers)', 'files below write() (real files in a scratch directory; simulated buffering, crashes and failures)']
FILE_RULE = ('seed -> 1..3 record keepers with 1..3 random games each (starting positions, handicaps, names, times, comments, ends), readers of the growing files, '
             'and in F02 a crash between two calls or two writes or a failing disk; distinct = digest of the event history and the schedule; non-trivial = at least one record begun')
prop('F01', [('w_files:Files', 4500, 100000)], FILE_REAL, FILE_STUB, FILE_RULE, focus=['file', 'torn'])
prop('F02', [('w_files:FilesDamaged', 4500, 120000)], FILE_REAL, FILE_STUB, FILE_RULE, focus=['torn', 'file'])

prop('F03', [('w_files:Foreign', 9000, 150000)], FILE_REAL, ['the programs writing the records', 'scheduler of writers and readers'],
     'seed -> 1..2 other programs writing records (CSA with PI and removals, rows or single pieces, times and comments on the line or below, floodgate summaries; KIF with handicaps, '
     'diagrams, alternative spellings, missing times, variations; KI2 with several moves per line) in chunks, 40 % of them killed at a random byte, 0..2 readers of the growing files, '
     'fresh and reused parsers; distinct = digest of the event history and the schedule; non-trivial = at least one record begun', focus=['other'])

prop('G01', [('w_learn:Gym', 2200, 50000)], ['cshogi.gym_shogi (ShogiEnv, ShogiVecEnv)', 'Board and the C++ position code'],
     ['thread scheduler (several tasks step the environments)', 'randomness of action sampling'],
     'seed -> 1..3 environments (single and vector) shared by 1..3 tasks, starting positions, sequences of reset/step/sample/render with legal, illegal and repeating actions; '
     'distinct = digest of the event history and the schedule; non-trivial = at least five calls', focus=['gym'])
prop('D01', [('w_learn:Features', 4000, 80000)], ['cshogi.dlshogi, piece planes and move labels of cshogi.Board', 'C++ feature and label code'],
     ['thread scheduler (several tasks share the buffers)'],
     'seed -> boards with random histories and 1..3 feature buffers reused in random order by 1..3 tasks, nyugyoku features on and off; '
     'distinct = digest of the event history and the schedule; non-trivial = at least five calls', focus=['feat'])
prop('T01', [('w_train:Train', 5000, 100000)], ['record types, packing, move conversion and book keys of cshogi (Cython layer and C++)', 'numpy'],
     ['the programs that write and read training data', 'files below write() (real files in a scratch directory; simulated buffering, crashes and failures)', 'scheduler of writers and readers'],
     'seed -> 1..3 writers with 1..3 games each and a record type, batch sizes, routes to the positions, files by another program, 0..2 readers, crash or disk failure, flipped bits; '
     'distinct = digest of the event history and the schedule; non-trivial = at least one record', focus=['train'])
