HOOKS = dict(guard='CSHOGI_SIM', enable='vsim/build.py compiles the sources of /repo with -DCSHOGI_SIM', source_commits=['9c7638609a393c6e22f78133d9bafe73b2511b99'])

CLIENT = ['cshogi/usi/Engine.py']
CLI = ['cshogi/cli.py', 'cshogi/usi/Engine.py', 'cshogi/_cshogi.pyx', 'src/position.cpp', 'src/cshogi.h']

p('C01', 'The USI client gives each caller exactly what its engine said',
  'Driving a USI engine through the client, every call sends exactly the command it stands for, returns the reply that the engine '
  'gave to that command (moves, ponder moves, mate results, option lists, the engine\'s name), and hands every line the engine '
  'writes until then to the listener, once and in order; InfoListener and MultiPVListener tell the score, variation and values of the lines the engine '
  'wrote for its best move and its variations. This holds whatever the timing, line ends and chunking of the engine\'s '
  'output, and for several engines driven side by side.',
  ['schedules', 'histories', 'inputs'],
  'every sequence of client calls, every engine output (info lines, scores, multipv, mate replies), every chunking and delay of it, every '
  'interleaving of several clients',
  'The tests drive one scripted engine through a fixed dialogue; they never vary delays, partial lines, stderr volume, ponder/stop races or '
  'two clients at once.',
  CLIENT, 'Engine: write command, flush, read lines until the reply; InfoListener/MultiPVListener keep the last lines')

p('C02', 'A dead engine is reported, never waited for',
  'If the engine process ends or closes its output at any point, also in the middle of a line or while it floods its output, '
  'the call that waits for a reply raises an error within a bounded number of steps. It never hangs and never '
  'returns a reply that the engine did not complete.',
  ['fault_sequences', 'schedules', 'crash_points'],
  'every point of every reply at which the engine may die, with every amount of unread output, every exit code',
  'No test kills an engine.',
  CLIENT, 'reads to a complete line, EOF raises EOFError, broken pipe raises OSError, quit tolerates a dead engine')

p('M01', 'Every game of a match ends exactly when and how the rules say',
  'In an engine match every game goes on until one of these happens and then ends at once with the corresponding verdict: '
  'resignation or the resignation threshold, win declaration, illegal move, checkmate, fourfold repetition (perpetual check loses for the checking '
  'side), found mate if enabled, move limit, time run out by a second or more. No legal move is refused, no illegal one is played, and the opening '
  'moves count as played.',
  ['histories', 'schedules', 'configurations'],
  'every sequence of engine replies, openings, option combinations and timings',
  'The tests never run a match.',
  CLI, 'game loop of main(): legality, repetition table, is_draw, score thresholds, clock')

p('M02', 'Match results are counted for the right engine and colour',
  'Over a series of games with colours swapped every game (unless told not to), the totals per engine and per colour, the report after '
  'every game (its shares and rating estimate follow from those totals), what the callback is given and what is returned count every finished game exactly once, for the engine and colour that won it. '
  'Options, names, openings and time settings stay with their engine when colours swap, and each opening is played once with each colour assignment.',
  ['histories', 'configurations', 'schedules'],
  'every sequence of verdicts, every number of games, names, swap setting, opening list and early stop by the callback',
  'The tests never run a match.',
  ['cshogi/cli.py', 'cshogi/elo.py'], 'engines_order swap, win counters, callback dictionary')

p('M03', 'Engines in a match see a valid USI dialogue, also when pondering',
  'Each engine is sent commands only in states in which USI allows them: initialised and ready before a new game, the full and correct move list before each '
  'search, ponder hit exactly when the opponent played the predicted move, stop (and its reply collected) otherwise, no search left running when a game ends. '
  'A reply to a stopped ponder search is never taken for a move, and every engine is told to quit.',
  ['schedules', 'histories', 'configurations'],
  'every interleaving of the match thread, ponder threads and the two engines; every pattern of ponder hits and misses; kept or restarted processes',
  'The tests never ponder.',
  ['cshogi/cli.py', 'cshogi/usi/Engine.py'], 'ponder threads and futures, send_go/wait_bestmove, stop at game end')

p('M04', 'Clocks in a match charge the thinking time to the side that used it',
  'Before every search each engine is told both remaining times, increments and byoyomi as they really stand: initial time plus increments '
  'minus the wall time (rounded up to milliseconds) that side has spent on its own moves, counted from ponder hit when it pondered. A side whose time is '
  'overdrawn by less than one second continues with zero, one overdrawn by a second or more loses on time; system clock changes have no influence.',
  ['schedules', 'histories', 'fault_sequences'],
  'every sequence of thinking times including those on the boundary, every time control, ponder hits, wall clock jumps',
  'The tests have no clock.',
  ['cshogi/cli.py'], 'perf_counter around go/ponderhit, remain_time, inc_time')

p('M05', 'A match always ends: with its result, or with an error if an engine dies',
  'A match between engines that answer comes to its end in a bounded number of steps. If an engine cannot be started or dies at any point while a reply is due, '
  'the match fails with an end-of-file or operating system error instead of waiting or inventing a result, nothing keeps the process from exiting, and games '
  'already reported keep their result and record.',
  ['fault_sequences', 'schedules', 'crash_points'],
  'every point of the dialogue at which either engine dies, also while pondering, with every interleaving of the threads',
  'The tests never run a match and never kill an engine.',
  ['cshogi/cli.py', 'cshogi/usi/Engine.py'], 'EOF handling in the client, ponder wait in a daemon thread')

p('R01', 'Finished games are durably and faithfully recorded, crash or no crash',
  'Once a match moves on from a finished game, its CSA and PGN records are on disk and hold exactly the players, moves, thinking times, evaluation comments and '
  'result of that game, and reading the CSA record back gives that game. A crash of the program at any later point damages at most the game under way, and a match '
  'started again on the same files keeps every earlier record and appends its own intact.',
  ['crash_points', 'histories', 'schedules'],
  'every game, every crash point between two writes, every buffer size, restart on the same files',
  'The tests write two fixed records and never crash.',
  ['cshogi/cli.py', 'cshogi/CSA.py', 'cshogi/PGN.py', 'src/parser.h'], 'flush at end of game, separators in append mode, file naming per game')

p('R02', 'A failing disk is reported and never costs an already finished record',
  'If opening or writing a record file fails (disk full, I/O error), the match ends with an operating system error instead of going on silently. '
  'Records of games it had already moved on from stay intact; short writes are completed and lose nothing.',
  ['fault_sequences', 'histories'],
  'every write and open at which the disk fails, once or for good, with every torn length; short writes anywhere',
  'No test injects an I/O error.',
  ['cshogi/cli.py', 'cshogi/CSA.py', 'cshogi/PGN.py'], 'exceptions of write/flush/close')

p('L01', 'The command line plays the requested league, every pairing fairly',
  'Started from the command line with three engines, the program plays for every two games requested one game per colour assignment of each of the three pairings, '
  'with each engine\'s own options, name and time settings and the same opening for all pairings of a round, and prints standings that add up all games so far. '
  'With two engines it plays the requested match.',
  ['configurations', 'histories', 'schedules'],
  'every combination of command line arguments, outcomes and timings',
  'The tests never start the command line program.',
  ['cshogi/cli.py'], 'argument parsing, combinations loop, results accumulation')

WEB = ['cshogi/web/app.py', 'cshogi/web/templates/board.html', 'cshogi/usi/Engine.py']
p('W01', 'Browser players play exactly the moves they send; all browsers see one game',
  'In a browser match every move played for a human is a legal move that some browser sent for that very turn, and a legal move sent for the current turn of a human is '
  'played within a second (unless a later request replaced it before). Stale, future, repeated, malformed or illegal requests change nothing and stop neither the server nor the match. '
  'Every answer shows a prefix of the one game, never fewer moves than an earlier answer, with the side to move by hand that belongs to the moves shown; if an engine dies '
  'the match process ends and the server goes on showing what was played.',
  ['schedules', 'fault_sequences', 'histories'],
  'every interleaving of the server, the match process and the shared state; every loss, delay, duplication and reordering of requests and answers; several browsers; out-of-place requests',
  'The tests never start the web server.',
  WEB, 'human_input passed as one unit through the manager, polling in Human.go, one snapshot of moves per answer')

p('W02', 'A browser match is played, timed and reported by the rules',
  'In a browser match engines are sent the right position, clocks and commands; every published entry carries the right number, move text, time, evaluation from black\'s view and variation; '
  'the game ends when the rules, the move limit or the clock say, with exactly one final entry naming the right verdict and side; engines are told to quit, and the CSA record, if asked for, holds that game.',
  ['histories', 'schedules', 'configurations'],
  'every sequence of human and engine moves, thinking times on both sides of every limit, time controls, verdicts',
  'The tests never start the web server.',
  WEB + ['cshogi/cli.py', 'cshogi/CSA.py', 'cshogi/KIF.py'], 'match() loop: clock, legality, repetition table, result texts, exporter')

p('W03', 'The page shows a recorded game as it was recorded, whole or cut off',
  'Opening a CSA record of a game from any starting position in the browser shows every recorded move in order with its side, time, evaluation and variation and the recorded end. A record without moves or without an end is shown too; '
  'a record cut off at any byte is either shown up to its last complete moves or refused with an error, never shown with a move it does not contain.',
  ['crash_points', 'inputs'],
  'every recorded game, every byte at which the writing program may have been stopped',
  'The tests never start the web server.',
  ['cshogi/web/app.py', 'src/parser.h', 'cshogi/CSA.py', 'cshogi/KIF.py'], 'replay branch of run(), CSA.Parser')

p('W04', 'The page shows the position and sends the move the player made with the mouse',
  'Whatever answers arrive, in whatever order, and whatever the user clicks, the page shows exactly the pieces, hands, last move, move list, evaluation, variation and players\' names of the move it says '
  'it shows, for games from any starting position. Two clicks of the side to move send exactly that move for exactly that turn, promoted when it must be, asked for when it may be, and nothing else sends a move. '
  'The page keeps asking for news while another side is to move and stops when the game is over; no script ever fails.',
  ['schedules', 'fault_sequences', 'histories'],
  'every sequence of answers (lost, late, duplicated, reordered), timers, clicks and reloads; every game and record',
  'The tests never load the page.',
  ['cshogi/web/templates/board.html', 'cshogi/web/static/board.js', 'cshogi/web/app.py'], 'selectMoveNumber, updateBoard, update, human_move, onMouseDown1/2, Board.move, Board.to_svg')

BOARD = ['cshogi/_cshogi.pyx', 'src/cshogi.h', 'src/position.cpp', 'src/position.hpp']
p('B01', 'A board always is exactly what its own history of calls makes it',
  'After any history of moves (as numbers, USI, CSA, 16-bit or PSV codes), take-backs, passes, loads, copies and queries, also on several boards used in turns by several threads, '
  'each board shows exactly the pieces, hands, side to move, move number, last move, history, kings, hash and texts (SFEN, CSA, BOD, packed) that its own calls lead to by the rules. '
  'Equal positions have equal hashes however they were reached, a copy never sees or changes its original, and no query, iteration or refused call changes a board.',
  ['histories', 'schedules'],
  'every sequence of calls on every number of boards and every interleaving of their users',
  'The tests replay a few fixed sequences on one board.',
  BOARD, 'doMove/undoMove, StateInfo chain and its relinking in copies, incremental hash and bitboards')

p('B02', 'Legal moves, check, game over, mate in one and declaration follow the rules',
  'In every position a history can reach, legal_moves lists each legal move exactly once and nothing else; is_legal, is_pseudo_legal, the move constructors and the text readers agree with it; '
  'filtering pseudo_legal_moves gives the same set; is_check, is_game_over, the declaration test and the mate-in-one search tell the truth (a reported mate in one is one). '
  'An iteration begun earlier still yields the moves of the position in which it was begun.',
  ['histories', 'schedules', 'inputs'],
  'every reachable position, also with many checks, pins, drops, double pawns and drop-pawn mates at once; iterations interleaved with moves',
  'The tests count the moves of a few positions.',
  BOARD + ['src/generateMoves.cpp', 'src/usi.cpp'], 'generateMoves<LegalAll>, pseudoLegalMoveIsLegal, moveGivesCheck, mateMoveIn1Ply, nyugyoku')

p('B03', 'Repetition and perpetual check are judged from the true history of the board',
  'is_draw() reports a position that occurred before on this board since the last pass: won or lost if one side gave check at every turn in between, otherwise drawn; or the same board with a better or worse hand '
  'of the side to move; nearest occurrence first, within the given window. It is the same on copies, after take-backs, and for a position loaded with its moves; '
  'move_is_draw(m) says what is_draw says about an identical position after m.',
  ['histories'],
  'every history with repeated positions, checks by either side, passes, take-backs, copies and every window',
  'The tests have a single repetition.',
  BOARD, 'isDraw, moveIsDraw, continuousCheck and pliesFromNull in StateInfo')

p('B04', 'A position or move that cannot be read is refused and leaves the board as it was',
  'Loading a malformed SFEN, position command or packed position raises an error, never crashes, and leaves board, history and later behaviour exactly as before; the same holds for a take-back '
  'with nothing to take back. An unreadable or illegal move text is answered with 0 and not played. Every well-formed position in any of these forms is accepted.',
  ['fault_sequences', 'inputs', 'histories'],
  'every torn, corrupted or made-up input at every point of every history',
  'The tests load well-formed positions only.',
  BOARD + ['src/usi.cpp'], 'Position::set, set_hcp, set_psfen, set_position, usiToMove, csaToMove')

p('S01', 'Mate searches never report a mate that is not there, however interrupted',
  'Whenever mate_move_in_1ply, mate_move(n), is_mate(n), DfPn or osl.DfPn reports a mate there is one; the move shown is legal, gives check and mates by force (within n plies for the first three), and the line shown is '
  'legal, checks at every attacking move and ends in mate. This holds for every node, depth and ply limit, with the stop flag set, and for a solver used before for any other board; a used solver answers as a new one does, '
  'and no search changes the board or its history. A search by DfPn that was not cut short overlooks no mate within five plies (osl.DfPn: with unlimited depth); mate_move overlooks none whose last move is '
  'a direct check from next to the king or by a knight and whose last defence is no counter-check; played out against any defence a reported mate stays one.',
  ['fault_sequences', 'histories', 'inputs'],
  'every position, every point at which a search is cut short, every order of searches on shared solvers and boards',
  'The tests search a handful of known problems once.',
  ['src/dfpn.cpp', 'src/osl_dfpn.cpp', 'src/mate.cpp', 'src/position.cpp', 'cshogi/_cshogi.pyx', 'src/cshogi.h'],
  'transposition tables cleared per search, proof pieces, undo on every exit of the recursive searches')

FILES = ['cshogi/CSA.py', 'cshogi/KIF.py', 'cshogi/KI2.py', 'cshogi/PGN.py', 'src/parser.h', 'cshogi/_cshogi.pyx']
p('F01', 'A game written as CSA, KIF, KI2 or PGN is read back as the same game',
  'Whatever game is written with the exporters (any starting position or handicap the format can hold, moves, times, evaluations, comments, names, dates, end), also several games per file, '
  'several files at once and over an older file, reading the file gives exactly the games written: start, moves in order, players, times, comments and scores, end and winner. '
  'Looking at a file while it is being written changes nothing and never shows a move that was not written.',
  ['histories', 'schedules', 'inputs'],
  'every game in every format, every interleaving of several writers and readers, every buffer size',
  'The tests read a few fixed records and write one game per format.',
  FILES, 'Exporter.header/info/move/end, Parser.parse_str, disambiguation in KI2, winner and score sign by side to move')

p('F02', 'A record cut off or half written at any byte never turns into another game',
  'If the program dies or the disk fails at any point while records are written, what is left reads as a beginning of the game that was played (every complete move line, no move that was not played, '
  'no end or winner the game did not have) or is refused with an error. Records finished before the failure stay whole, and a record appended to a damaged file afterwards is readable as itself.',
  ['crash_points', 'fault_sequences', 'histories'],
  'every byte at which writing stops, by a crash or a disk error, for every game and format',
  'No test reads a damaged file.',
  FILES, 'flush points of the exporters, strictness of the parsers on torn lines, append separators')

p('F03', 'Records by other programs are read as the games they hold, also while they grow',
  'A CSA, KIF or KI2 record as other programs write it (handicaps and set-up positions in each form the format has, alternative piece names, several moves per line, times and comments on the line of the move or below, '
  'missing times, server summaries, variations after the game, either line end) is read as exactly the game it holds: start, moves, players, times, comments, scores, ratings, end and winner. '
  'Cut off at any byte or read while it is being written, it gives a beginning of that game or is refused, whatever the parser object was used for before.',
  ['inputs', 'crash_points', 'schedules', 'histories'],
  'every game in every dialect, every byte at which it may end, every order of reads and writes',
  'The tests read a handful of complete records.',
  FILES, 'notation and header parsing, disambiguation of KI2 moves, state kept in a reused parser')

p('G01', 'The gym environments play by the rules, in batches and after refused actions',
  'Every reset, step and render of ShogiEnv and ShogiVecEnv gives the board, reward, end and draw verdict that the moves so far lead to by the rules: mate and no other position ends '
  'a game won, the fourth occurrence ends it drawn or by perpetual check for the right side, a resignation is lost for the side to move, an environment of a batch that ended starts anew, and no environment sees another. '
  'An illegal action or an unreadable starting position is refused with an error and leaves the environment as it was.',
  ['histories', 'schedules', 'inputs'],
  'every sequence of actions on every number of environments, every interleaving of their users',
  'The tests make a handful of steps in one environment.',
  ['cshogi/gym_shogi/envs/shogi_env.py', 'cshogi/gym_shogi/envs/shogi_vec_env.py', 'cshogi/_cshogi.pyx'], 'repetition table of the environment, is_draw, legality, reset of finished games in a batch')

p('D01', 'Network inputs and move labels depend on the position alone',
  'make_input_features, piece_planes, piece_planes_rotate, make_move_label and move_rotate give for every position and move exactly the planes and labels it has from the view of the side to move, '
  'whatever was computed before into the same buffers, for other boards or with the declaration features on or off, and write nothing behind the planes. '
  'A position turned round gives the same features and labels.',
  ['histories', 'schedules', 'inputs'],
  'every sequence of uses of shared buffers, boards and the global feature switch',
  'The tests compute the features of a few positions into fresh buffers.',
  ['src/cshogi.h', 'cshogi/dlshogi/__init__.py', 'cshogi/_cshogi.pyx'], 'make_input_features, make_move_label, piece planes')

p('T01', 'Training records and opening books on disk keep their positions and moves',
  'Records of the types HuffmanCodedPos, HuffmanCodedPosAndEval, PackedSfen, PackedSfenValue and BookEntry have the fixed layout and coding that other programs read and write: every record filled from a '
  'board (to_hcp, to_psfen, move16, move16_to_psv, book_key) holds exactly that position, move, evaluation, ply and result, however the board got there and whatever the array held before, and every complete '
  'record in a file, also one that is still being written, was cut off by a crash or comes from another program, restores to exactly the position and move it was written for and converts to the other '
  'coding. A book is found by the key of the position, which depends on nothing but the position, and book_key_after is the key after the move. A damaged record is refused, leaving the board as it was, or gives '
  'the position its bits stand for.',
  ['inputs', 'histories', 'crash_points', 'fault_sequences'],
  'every game and position, every batching and reuse of arrays and boards, every crash and disk failure while the file grows, every flipped bit',
  'The tests pack and unpack a handful of positions in memory and never look at the layout or at files.',
  ['cshogi/_cshogi.pyx', 'src/position.cpp', 'src/cshogi.h', 'src/book.cpp', 'src/move.hpp'], 'record dtypes, toHuffmanCodedPos/toPackedSfen and their inverses, move16 and psv moves, Book::bookKey')
