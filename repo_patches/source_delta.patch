From 9696f2d04aa67af75b0533b27497d1f739eecead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:43 +0000
Subject: [PATCH 01/63] fix: judge move legality against the generated legal
 moves

is_legal, move_from_usi/csa and push_usi accepted promotions outside the
promotion zone (also of golds, kings and already promoted pieces) and
pawns, lances and knights left on squares they can never move from.
---
 src/cshogi.h |  2 +-
 src/usi.cpp  | 10 ++--------
 2 files changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/cshogi.h b/src/cshogi.h
index 332665e..a7d1e4b 100644
--- a/src/cshogi.h
+++ b/src/cshogi.h
@@ -256,7 +256,7 @@ public:
         return pos.pseudoLegalMoveIsLegal<false, false>(Move(move), pinned);
     }
     bool moveIsLegal(const int move) const {
-        return moveIsPseudoLegal(move) && pseudoLegalMoveIsLegal(move);
+        return pos.moveIsLegal(Move(move));
     }
     bool is_nyugyoku() const { return nyugyoku(pos); }
     bool isOK() const { return pos.isOK(); }
diff --git a/src/usi.cpp b/src/usi.cpp
index ea87588..dd8896e 100644
--- a/src/usi.cpp
+++ b/src/usi.cpp
@@ -96,11 +96,8 @@ Move usiToMoveBody(const Position& pos, const std::string& moveStr) {
             return Move::moveNone();
     }
 
-    if (pos.moveIsPseudoLegal<false>(move)
-        && pos.pseudoLegalMoveIsLegal<false, false>(move, pos.pinnedBB()))
-    {
+    if (pos.moveIsLegal(move))
         return move;
-    }
     return Move::moveNone();
 }
 #if !defined NDEBUG
@@ -159,11 +156,8 @@ Move csaToMoveBody(const Position& pos, const std::string& moveStr) {
             return Move::moveNone();
     }
 
-    if (pos.moveIsPseudoLegal<false>(move)
-        && pos.pseudoLegalMoveIsLegal<false, false>(move, pos.pinnedBB()))
-    {
+    if (pos.moveIsLegal(move))
         return move;
-    }
     return Move::moveNone();
 }
 Move csaToMove(const Position& pos, const std::string& moveStr) {
-- 
2.43.0


From c8c610179fba6b7310cd2ea3808db5cae42aed61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:43 +0000
Subject: [PATCH 02/63] fix: raise EOFError when the USI engine closes its
 output

readline() returns bytes, so comparing with '' never matched and every
waiting call spun forever once the engine had died; a last line cut off by
the engine's death is not a reply either.
---
 cshogi/usi/Engine.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cshogi/usi/Engine.py b/cshogi/usi/Engine.py
index f810001..37ffea5 100644
--- a/cshogi/usi/Engine.py
+++ b/cshogi/usi/Engine.py
@@ -214,7 +214,7 @@ class Engine:
         while True:
             self.proc.stdout.flush()
             line = self.proc.stdout.readline()
-            if line == '':
+            if not line.endswith(b'\n'):
                 raise EOFError()
             line = line.strip()
             if line[:7] == b'id name':
@@ -241,7 +241,7 @@ class Engine:
         while True:
             self.proc.stdout.flush()
             line = self.proc.stdout.readline()
-            if line == '':
+            if not line.endswith(b'\n'):
                 raise EOFError()
             line = line.strip().decode(locale.getpreferredencoding())
             if listener:
@@ -280,7 +280,7 @@ class Engine:
         while True:
             self.proc.stdout.flush()
             line = self.proc.stdout.readline()
-            if line == '':
+            if not line.endswith(b'\n'):
                 raise EOFError()
             line = line.strip().decode('shift-jis')
             if listener:
@@ -354,7 +354,7 @@ class Engine:
         while True:
             self.proc.stdout.flush()
             line = self.proc.stdout.readline()
-            if line == '':
+            if not line.endswith(b'\n'):
                 raise EOFError()
             line = line.strip().decode(locale.getpreferredencoding())
             if listener:
@@ -386,7 +386,7 @@ class Engine:
         while True:
             self.proc.stdout.flush()
             line = self.proc.stdout.readline()
-            if line == '':
+            if not line.endswith(b'\n'):
                 raise EOFError()
             line = line.strip().decode(locale.getpreferredencoding())
             if listener:
-- 
2.43.0


From ebbdb86eda6b93d01693e40a5d8fa9d657a6ddf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:43 +0000
Subject: [PATCH 03/63] fix: do not let an engine block on an unread stderr
 pipe

Nobody reads the pipe, so an engine that logs more than the pipe holds to
stderr stopped answering.
---
 cshogi/usi/Engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cshogi/usi/Engine.py b/cshogi/usi/Engine.py
index 37ffea5..5dc9e87 100644
--- a/cshogi/usi/Engine.py
+++ b/cshogi/usi/Engine.py
@@ -203,7 +203,7 @@ class Engine:
         """
         if self.debug: listener = print
         cwd = os.path.dirname(self.cmd)
-        self.proc = subprocess.Popen([self.cmd], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd if cwd != '' else None)
+        self.proc = subprocess.Popen([self.cmd], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=cwd if cwd != '' else None)
 
         cmd = 'usi'
         if listener:
-- 
2.43.0


From 7a6153eaf47f4f1953866e1db2c6f4767239a1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:43 +0000
Subject: [PATCH 04/63] fix: write %ILLEGAL_MOVE for a lost perpetual check

Without the % the CSA parser rejects the record.
---
 cshogi/cli.py     | 2 +-
 cshogi/web/app.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cshogi/cli.py b/cshogi/cli.py
index f12c66b..ed99dac 100644
--- a/cshogi/cli.py
+++ b/cshogi/cli.py
@@ -445,7 +445,7 @@ def main(engine1: str, engine2: str, options1: Dict = {}, options2: Dict = {}, n
         elif is_repetition_lose:
             win = opponent(board.turn)
             print('まで{}手で{}の反則負け'.format(board.move_number - 1, '先手' if win == WHITE else '後手'))
-            csa_endgame = 'ILLEGAL_MOVE'
+            csa_endgame = '%ILLEGAL_MOVE'
         elif is_timeup:
             win = opponent(board.turn)
             print('まで{}手で{}の切れ負け'.format(board.move_number - 1, '先手' if win == WHITE else '後手'))
diff --git a/cshogi/web/app.py b/cshogi/web/app.py
index 8dd8c7b..4866778 100644
--- a/cshogi/web/app.py
+++ b/cshogi/web/app.py
@@ -218,7 +218,7 @@ def match(moves, engine1=None, engine2=None, options1={}, options2={}, names=Non
     elif is_repetition_lose:
         win = opponent(board.turn)
         result = '{}の反則負け'.format('先手' if win == WHITE else '後手')
-        csa_endgame = 'ILLEGAL_MOVE'
+        csa_endgame = '%ILLEGAL_MOVE'
     elif is_timeup:
         win = opponent(board.turn)
         result = '{}の切れ負け'.format('先手' if win == WHITE else '後手')
-- 
2.43.0


From 233adeb4dc58916318dacc9c1ee1ccbe48c0598e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:43 +0000
Subject: [PATCH 05/63] fix: count the starting position for fourfold
 repetition

---
 cshogi/cli.py     | 1 +
 cshogi/web/app.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/cshogi/cli.py b/cshogi/cli.py
index ed99dac..32a8055 100644
--- a/cshogi/cli.py
+++ b/cshogi/cli.py
@@ -235,6 +235,7 @@ def main(engine1: str, engine2: str, options1: Dict = {}, options2: Dict = {}, n
         moves = []
         usi_moves = []
         repetition_hash = defaultdict(int)
+        repetition_hash[board.zobrist_hash()] += 1
         if csa:
             engine_names = [engine.name for engine in engines_order]
             if not multi_csa:
diff --git a/cshogi/web/app.py b/cshogi/web/app.py
index 4866778..9b36861 100644
--- a/cshogi/web/app.py
+++ b/cshogi/web/app.py
@@ -97,6 +97,7 @@ def match(moves, engine1=None, engine2=None, options1={}, options2={}, names=Non
     board = Board()
     usi_moves = []
     repetition_hash = defaultdict(int)
+    repetition_hash[board.zobrist_hash()] += 1
 
     # 新規ゲーム
     for engine in engines:
-- 
2.43.0


From 24dfff4c07a9c38949673828605f2f72cdc938f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:43 +0000
Subject: [PATCH 06/63] fix: write a promoted knight as +N in PGN

---
 cshogi/PGN.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cshogi/PGN.py b/cshogi/PGN.py
index a967e24..4fd3310 100644
--- a/cshogi/PGN.py
+++ b/cshogi/PGN.py
@@ -21,7 +21,7 @@ PGN_HAND_PIECES = [
 PGN_PIECE_TYPES = [
     None,
     'P', 'L', 'N', 'S', 'B', 'R', 'G', 'K',
-    '+P', '+L', '+K', '+S', '+B', '+R',
+    '+P', '+L', '+N', '+S', '+B', '+R',
 ]
 
 def move_to_san(move):
-- 
2.43.0


From e57ce44111c35344809cd1ea86b9d8f13e533279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:11 +0000
Subject: [PATCH 07/63] fix: take the score of a move from the engine that
 played it, also with ponder

Both engines shared one listener, and with ponder on the following position
and go ponder commands had already replaced the info line by the time it
was read, so resign, mate_win and the CSA comments saw the wrong line.
---
 cshogi/cli.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/cshogi/cli.py b/cshogi/cli.py
index 32a8055..f92166e 100644
--- a/cshogi/cli.py
+++ b/cshogi/cli.py
@@ -159,7 +159,8 @@ def main(engine1: str, engine2: str, options1: Dict = {}, options2: Dict = {}, n
             def __call__(self, line):
                 self.info = self.bestmove
                 self.bestmove = line
-        listener1 = listener2 = Listener()
+        listener1 = Listener()
+        listener2 = Listener()
 
     # CSA
     if csa and multi_csa:
@@ -323,6 +324,9 @@ def main(engine1: str, engine2: str, options1: Dict = {}, options2: Dict = {}, n
 
                 elapsed_time = perf_counter() - start_time
 
+            # bestmoveの直前の出力(この後のponderで上書きされる)
+            info = listener.info
+
             if remain_time[board.turn] is not None:
                 if inc_time[board.turn] is not None:
                     remain_time[board.turn] += inc_time[board.turn]
@@ -343,7 +347,7 @@ def main(engine1: str, engine2: str, options1: Dict = {}, options2: Dict = {}, n
                 engine.position(usi_moves + [bestmove, pondermove], listener=listener)
                 feature = executor.submit(engine.go, ponder=True, byoyomi=byoyomi, btime=remain_time[BLACK], wtime=remain_time[WHITE], binc=binc, winc=winc, listener=listener)
 
-            score = usi_info_to_score(listener.info)
+            score = usi_info_to_score(info)
             # 投了閾値
             if resign is not None:
                 if score is not None and score <= -resign:
@@ -356,7 +360,7 @@ def main(engine1: str, engine2: str, options1: Dict = {}, options2: Dict = {}, n
                 if score is not None and score == 100000:
                     move = board.move_from_usi(bestmove)
                     if csa:
-                        csa_exporter.move(move, time=int(elapsed_time), comment=usi_info_to_csa_comment(board, listener.info))
+                        csa_exporter.move(move, time=int(elapsed_time), comment=usi_info_to_csa_comment(board, info))
                     board.push(move)
                     is_game_over = True
                     break
@@ -374,7 +378,7 @@ def main(engine1: str, engine2: str, options1: Dict = {}, options2: Dict = {}, n
                 move = board.move_from_usi(bestmove)
                 if board.is_legal(move):
                     if csa:
-                        csa_exporter.move(move, time=int(elapsed_time), comment=usi_info_to_csa_comment(board, listener.info))
+                        csa_exporter.move(move, time=int(elapsed_time), comment=usi_info_to_csa_comment(board, info))
                     board.push(move)
                     moves.append(move)
                     usi_moves.append(bestmove)
-- 
2.43.0


From 3f298b1c91121bf4fa5483669fc878c296f89fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:12 +0000
Subject: [PATCH 08/63] fix: stop and collect an engine's ponder search when
 the game ends

The search was left running: its reader thread went on reading the
engine's output, taking the replies of the next game's commands.
---
 cshogi/cli.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/cshogi/cli.py b/cshogi/cli.py
index f92166e..b3f6f9a 100644
--- a/cshogi/cli.py
+++ b/cshogi/cli.py
@@ -280,6 +280,7 @@ def main(engine1: str, engine2: str, options1: Dict = {}, options2: Dict = {}, n
         pre_pondermove = None
         feature = None
         pre_feature = None
+        ponder_features = [None, None]
         while not is_game_over:
             engine_index = (board.move_number - 1) % 2
             engine = engines_order[engine_index]
@@ -303,12 +304,14 @@ def main(engine1: str, engine2: str, options1: Dict = {}, options2: Dict = {}, n
 
                         engine.ponderhit(listener=listener)
                         bestmove, pondermove = pre_feature.result()
+                        ponder_features[engine_index] = None
     
                         elapsed_time = perf_counter() - start_time
                     else:
                         pre_pondermove = pondermove
                         engine.stop(listener=listener)
                         pre_feature.result()
+                        ponder_features[engine_index] = None
                 else:
                     pre_pondermove = pondermove
                 pre_feature = feature
@@ -346,6 +349,7 @@ def main(engine1: str, engine2: str, options1: Dict = {}, options2: Dict = {}, n
             if ponder and pondermove:
                 engine.position(usi_moves + [bestmove, pondermove], listener=listener)
                 feature = executor.submit(engine.go, ponder=True, byoyomi=byoyomi, btime=remain_time[BLACK], wtime=remain_time[WHITE], binc=binc, winc=winc, listener=listener)
+                ponder_features[engine_index] = feature
 
             score = usi_info_to_score(info)
             # 投了閾値
@@ -417,6 +421,12 @@ def main(engine1: str, engine2: str, options1: Dict = {}, options2: Dict = {}, n
                 is_game_over = True
                 break
 
+        # ponder中のエンジンを止める
+        for engine, listener, ponder_feature in zip(engines_order, listeners_order, ponder_features):
+            if ponder_feature:
+                engine.stop(listener=listener)
+                ponder_feature.result()
+
         # ゲーム終了
         for engine, listener in zip(engines_order, listeners_order):
             engine.gameover(listener=listener)
-- 
2.43.0


From 9eea28907551698df21509dcd1ea5a22e701770d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:12 +0000
Subject: [PATCH 09/63] fix: check and record the move that mate_win ends the
 game with

An illegal move (or 'win') was pushed unchecked, and the PGN record lacked
the last move.
---
 cshogi/cli.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/cshogi/cli.py b/cshogi/cli.py
index b3f6f9a..6cd2715 100644
--- a/cshogi/cli.py
+++ b/cshogi/cli.py
@@ -363,11 +363,14 @@ def main(engine1: str, engine2: str, options1: Dict = {}, options2: Dict = {}, n
             if mate_win:
                 if score is not None and score == 100000:
                     move = board.move_from_usi(bestmove)
-                    if csa:
-                        csa_exporter.move(move, time=int(elapsed_time), comment=usi_info_to_csa_comment(board, info))
-                    board.push(move)
-                    is_game_over = True
-                    break
+                    if board.is_legal(move):
+                        if csa:
+                            csa_exporter.move(move, time=int(elapsed_time), comment=usi_info_to_csa_comment(board, info))
+                        board.push(move)
+                        moves.append(move)
+                        usi_moves.append(bestmove)
+                        is_game_over = True
+                        break
 
             if bestmove == 'resign':
                 # 投了
-- 
2.43.0


From ba7c9d26c1c0b23c0fd29424101b964ba3a3c836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:12 +0000
Subject: [PATCH 10/63] fix: never overwrite the CSA record of an earlier game

Two games started within one second (or after the clock was set back) got
the same file name, and the second one replaced the first.
---
 cshogi/cli.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cshogi/cli.py b/cshogi/cli.py
index 6cd2715..f0aafd7 100644
--- a/cshogi/cli.py
+++ b/cshogi/cli.py
@@ -240,7 +240,13 @@ def main(engine1: str, engine2: str, options1: Dict = {}, options2: Dict = {}, n
         if csa:
             engine_names = [engine.name for engine in engines_order]
             if not multi_csa:
-                csa_exporter = CSA.Exporter(os.path.join(csa, '+'.join(engine_names) + '+' + datetime.datetime.now().strftime('%Y%m%d%H%M%S') + '.csa'), append=False)
+                csa_base = os.path.join(csa, '+'.join(engine_names) + '+' + datetime.datetime.now().strftime('%Y%m%d%H%M%S'))
+                csa_path = csa_base + '.csa'
+                csa_number = 1
+                while os.path.exists(csa_path):
+                    csa_number += 1
+                    csa_path = csa_base + '_' + str(csa_number) + '.csa'
+                csa_exporter = CSA.Exporter(csa_path, append=False)
             csa_exporter.info(board, engine_names, version='V2')
         if opening:
             for move_usi in opening_list[n // 2 % len(opening_list)]:
-- 
2.43.0


From fd3d08518c644f2505d8978e25fb6bf6246de904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:40 +0000
Subject: [PATCH 11/63] fix: send go ponder before the opponent starts to move

The worker thread sent it, so a quick opponent could make ponderhit or stop
overtake go ponder; the engine then pondered forever.
---
 cshogi/cli.py        |  3 ++-
 cshogi/usi/Engine.py | 12 ++++++++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/cshogi/cli.py b/cshogi/cli.py
index f0aafd7..349aa89 100644
--- a/cshogi/cli.py
+++ b/cshogi/cli.py
@@ -354,7 +354,8 @@ def main(engine1: str, engine2: str, options1: Dict = {}, options2: Dict = {}, n
             # ponder
             if ponder and pondermove:
                 engine.position(usi_moves + [bestmove, pondermove], listener=listener)
-                feature = executor.submit(engine.go, ponder=True, byoyomi=byoyomi, btime=remain_time[BLACK], wtime=remain_time[WHITE], binc=binc, winc=winc, listener=listener)
+                engine.send_go(ponder=True, byoyomi=byoyomi, btime=remain_time[BLACK], wtime=remain_time[WHITE], binc=binc, winc=winc, listener=listener)
+                feature = executor.submit(engine.wait_bestmove, listener=listener)
                 ponder_features[engine_index] = feature
 
             score = usi_info_to_score(info)
diff --git a/cshogi/usi/Engine.py b/cshogi/usi/Engine.py
index 5dc9e87..b6bf273 100644
--- a/cshogi/usi/Engine.py
+++ b/cshogi/usi/Engine.py
@@ -329,6 +329,11 @@ class Engine:
         :param listener: Optional callback to handle engine responses.
         :return: The best move found and optional ponder move.
         """
+        self.send_go(ponder=ponder, btime=btime, wtime=wtime, byoyomi=byoyomi, binc=binc, winc=winc, nodes=nodes, listener=listener)
+        return self.wait_bestmove(listener=listener)
+
+    def send_go(self, ponder: bool = False, btime: Optional[int] = None, wtime: Optional[int] = None, byoyomi: Optional[int] = None, binc: Optional[int] = None, winc: Optional[int] = None, nodes: Optional[int] = None, listener: Optional[Callable] = None):
+        """Sends the 'go' command without waiting for the best move. The parameters are those of :meth:`go`."""
         if self.debug: listener = print
         cmd = 'go'
         if ponder:
@@ -351,6 +356,13 @@ class Engine:
         self.proc.stdin.write(cmd.encode('ascii') + b'\n')
         self.proc.stdin.flush()
 
+    def wait_bestmove(self, listener: Optional[Callable] = None) -> Tuple[str, Optional[str]]:
+        """Waits for the best move of the search started by :meth:`send_go`.
+
+        :param listener: Optional callback to handle engine responses.
+        :return: The best move found and optional ponder move.
+        """
+        if self.debug: listener = print
         while True:
             self.proc.stdout.flush()
             line = self.proc.stdout.readline()
-- 
2.43.0


From b07af1e3fa7e424ac273da836ddf695632b3426d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:38 +0000
Subject: [PATCH 12/63] fix: parse 'score mate +' and 'score mate -' in
 InfoListener

The value was popped twice when it was not a number, and '-' was compared
with 0.
---
 cshogi/usi/Engine.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cshogi/usi/Engine.py b/cshogi/usi/Engine.py
index b6bf273..99b0136 100644
--- a/cshogi/usi/Engine.py
+++ b/cshogi/usi/Engine.py
@@ -46,10 +46,11 @@ class InfoListener:
                 name = items.pop(0)
                 info_dict['score'] = name
 
+            value = items.pop(0)
             try:
-                info_dict[name] = int(items.pop(0))
+                info_dict[name] = int(value)
             except ValueError:
-                info_dict[name] = items.pop(0)
+                info_dict[name] = value
 
         info_dict['pv'] = (m[2] + m[3]).split(' ')
         return info_dict
@@ -117,9 +118,9 @@ class InfoListener:
                 mate = info['mate']
             else:
                 return None
-            if mate == '+' or mate > 0:
+            if mate == '+' or mate != '-' and mate > 0:
                 return self.__mate_score
-            elif mate == '-' or mate <= 0:
+            else:
                 return -self.__mate_score
                 
     @property
-- 
2.43.0


From 9af9227a358970901a534699d2b2f5f940f40a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:28 +0000
Subject: [PATCH 13/63] fix: reject unreadable moves, pieces and squares in a
 CSA record

---
 src/parser.h | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/parser.h b/src/parser.h
index 4b644e1..bba7ee1 100644
--- a/src/parser.h
+++ b/src/parser.h
@@ -34,7 +34,10 @@ namespace parser {
             (*this)["RY"] = Dragon;
         }
         PieceType value(const std::string& str) const {
-            return this->find(str)->second;
+            const auto itr = this->find(str);
+            if (itr == this->end())
+                throw std::domain_error("Invalid piece: " + str);
+            return itr->second;
         }
     };
     const StringToPieceTypeCSA stringToPieceTypeCSA;
@@ -73,7 +76,10 @@ namespace parser {
             (*this)["-RY"] = WDragon;
         }
         Piece value(const std::string& str) const {
-            return this->find(str)->second;
+            const auto itr = this->find(str);
+            if (itr == this->end())
+                throw std::domain_error("Invalid piece: " + str);
+            return itr->second;
         }
     };
     const StringToPieceCSA stringToPieceCSA;
@@ -157,7 +163,7 @@ namespace parser {
                         }
                     }
                     // score
-                    else if (line.substr(0, 4) == "'** ") {
+                    else if (line.substr(0, 4) == "'** " && !moves.empty()) {
                         auto last = line.find_first_of(" ", 4);
                         if (last == std::string::npos)
                             last = line.size();
@@ -211,6 +217,11 @@ namespace parser {
                         if (!pos_initialized)
                             throw std::domain_error("Board infomation is not defined before a special move");
                         Move move = csaToMove(pos, line.substr(1, 6));
+                        if (!move) {
+                            std::stringstream ss;
+                            ss << "Invalid move " << line_no << ": " << line;
+                            throw std::domain_error(ss.str());
+                        }
                         moves.push_back(move.value());
                         states->push_back(StateInfo());
                         pos.doMove(move, states->back());
@@ -281,12 +292,12 @@ namespace parser {
 
         static std::string parse_position(const std::vector<std::string>& position_block_lines) {
             Color color;
-            Color current_turn;
+            Color current_turn = Black;
             int rank_index;
             int file_index;
             Piece piece;
             int pieces_in_hand[PieceNone] = {};
-            Piece pieces_in_board[9][9];
+            Piece pieces_in_board[9][9] = {};
 
             // ex.) P1 - KY - KE - GI - KI - OU - KI - GI - KE - KY
             for (auto line : position_block_lines) {
@@ -312,18 +323,22 @@ namespace parser {
                     if (itrColor != COLOR_SYMBOLS.end()) {
                         int index = 2;
                         while (index < line.size()) {
-                            rank_index = std::stoi(line.substr(index, 1));
-                            index += 1;
                             file_index = std::stoi(line.substr(index, 1));
                             index += 1;
+                            rank_index = std::stoi(line.substr(index, 1));
+                            index += 1;
                             piece = stringToPieceCSA.value((*itrColor) + line.substr(index, 2));
                             index += 2;
                             if (rank_index == 0 && file_index == 0) {
                                 // piece in hand
+                                if (pieceToPieceType(piece) >= King)
+                                    throw std::domain_error("Invalid piece in hand: " + line);
                                 pieces_in_hand[piece] += 1;
                             }
                             else {
-                                pieces_in_board[(rank_index - 1)][(file_index - 1)] = piece;
+                                if (rank_index == 0 || file_index == 0)
+                                    throw std::domain_error("Invalid square: " + line);
+                                pieces_in_board[rank_index - 1][9 - file_index] = piece;
                             }
                         }
                     }
-- 
2.43.0


From 34029b0fc42764e04adcbf1dac1b17699e8bb82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:28 +0000
Subject: [PATCH 14/63] fix: do not glue an appended record to a line cut off
 by a crash

---
 cshogi/CSA.py | 6 ++++++
 cshogi/PGN.py | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/cshogi/CSA.py b/cshogi/CSA.py
index 2a5a820..cdf8b21 100644
--- a/cshogi/CSA.py
+++ b/cshogi/CSA.py
@@ -38,6 +38,12 @@ class Exporter:
         :type encoding: str, optional
         """
         self.f = open(path, 'a' if append else 'w', newline='\n', encoding=encoding)
+        if append and self.f.tell() != 0:
+            # end a line cut off by a crash
+            with open(path, 'rb') as f:
+                f.seek(-1, 2)
+                if f.read(1) != b'\n':
+                    self.f.write('\n')
 
     def close(self):
         """Close the file."""
diff --git a/cshogi/PGN.py b/cshogi/PGN.py
index 4fd3310..7a3c1b8 100644
--- a/cshogi/PGN.py
+++ b/cshogi/PGN.py
@@ -53,6 +53,12 @@ class Exporter:
         :param append: Whether to append to the existing file or create a new one. Defaults to False.
         """
         self.f = open(path, 'a' if append else 'w', newline='\n')
+        if append and self.f.tell() != 0:
+            # end a line cut off by a crash
+            with open(path, 'rb') as f:
+                f.seek(-1, 2)
+                if f.read(1) != b'\n':
+                    self.f.write('\n')
 
     def close(self):
         """Close the file."""
-- 
2.43.0


From 2d657ffdaf129d1a71c3dd85f1fa388309f54349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:28 +0000
Subject: [PATCH 15/63] fix: let the match program exit after an error while an
 engine ponders

---
 cshogi/cli.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/cshogi/cli.py b/cshogi/cli.py
index 349aa89..be5db1b 100644
--- a/cshogi/cli.py
+++ b/cshogi/cli.py
@@ -6,7 +6,8 @@ import re
 import os
 import datetime
 from collections import defaultdict
-from concurrent.futures import ThreadPoolExecutor
+from concurrent.futures import Future
+from threading import Thread
 
 from cshogi import *
 from cshogi.usi import Engine
@@ -62,6 +63,17 @@ def usi_info_to_score(info):
 
     return to_score(m)
 
+def submit(fn, **kwargs):
+    # a daemon thread, so that an engine still pondering does not keep the process alive after an error
+    future = Future()
+    def run():
+        try:
+            future.set_result(fn(**kwargs))
+        except BaseException as e:
+            future.set_exception(e)
+    Thread(target=run, daemon=True).start()
+    return future
+
 def main(engine1: str, engine2: str, options1: Dict = {}, options2: Dict = {}, names: Optional[List[str]] = None,
          games: int = 1, resign: Optional[int] = None, mate_win: bool = False,
          byoyomi: Optional[Union[int, List[int]]] = None, time: Optional[Union[int, List[int]]] = None, inc: Optional[Union[int, List[int]]] = None,
@@ -133,10 +145,6 @@ def main(engine1: str, engine2: str, options1: Dict = {}, options2: Dict = {}, n
     else:
         inc1 = inc2 = inc
 
-    # ponder
-    if ponder:
-        executor = ThreadPoolExecutor(max_workers=2)
-
     # debug
     if debug:
         class Listener:
@@ -355,7 +363,7 @@ def main(engine1: str, engine2: str, options1: Dict = {}, options2: Dict = {}, n
             if ponder and pondermove:
                 engine.position(usi_moves + [bestmove, pondermove], listener=listener)
                 engine.send_go(ponder=True, byoyomi=byoyomi, btime=remain_time[BLACK], wtime=remain_time[WHITE], binc=binc, winc=winc, listener=listener)
-                feature = executor.submit(engine.wait_bestmove, listener=listener)
+                feature = submit(engine.wait_bestmove, listener=listener)
                 ponder_features[engine_index] = feature
 
             score = usi_info_to_score(info)
-- 
2.43.0


From b071ccda5cfe0320775d9c8183ad96f22b80f986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:24 +0000
Subject: [PATCH 16/63] fix: play web matches with a time control

inc_time was never defined, so the match process died at the first move of
any game with a time control.  Time is now kept as in cshogi.cli.
---
 cshogi/web/app.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/cshogi/web/app.py b/cshogi/web/app.py
index 9b36861..3bdd9f3 100644
--- a/cshogi/web/app.py
+++ b/cshogi/web/app.py
@@ -137,10 +137,20 @@ def match(moves, engine1=None, engine2=None, options1={}, options2={}, names=Non
         elapsed_time = perf_counter() - start_time
 
         if remain_time[board.turn] is not None:
-            if inc_time[board.turn] is not None:
-                remain_time[board.turn] += inc_time[board.turn]
+            if inc is not None:
+                remain_time[board.turn] += inc
             remain_time[board.turn] -= math.ceil(elapsed_time * 1000)
 
+            if remain_time[board.turn] < 0:
+                # 1秒未満は切れ負けにしない
+                if remain_time[board.turn] > -1000:
+                    remain_time[board.turn] = 0
+                else:
+                    # 時間切れ負け
+                    is_timeup = True
+                    is_game_over = True
+                    break
+
         if bestmove == 'resign':
             # 投了
             is_game_over = True
-- 
2.43.0


From 5fcd400138c8e45a40b829cd280ac228f8baac7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:24 +0000
Subject: [PATCH 17/63] fix: pass a human's move and its number as one unit

Both were written and read one by one through the manager, so the match
process could combine the number of one request with the move of another.
---
 cshogi/web/app.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/cshogi/web/app.py b/cshogi/web/app.py
index 3bdd9f3..54f38cb 100644
--- a/cshogi/web/app.py
+++ b/cshogi/web/app.py
@@ -32,7 +32,7 @@ class Human:
     def go(self, ponder=False, btime=None, wtime=None, byoyomi=None, binc=None, winc=None, nodes=None, listener=None):
         import time
         while True:
-            human_input = dict(self.human_input)
+            human_input = self.human_input.copy()
             if human_input['number'] == self.board.move_number:
                 usi_move = human_input['move']
                 move = self.board.move_from_usi(usi_move)
@@ -346,8 +346,7 @@ def run(engine1: Optional[str] = None, engine2: Optional[str] = None, options1:
     @app.route("/move")
     def human_move():
         import time
-        human_input['move'] = request.args.get('move')
-        human_input['number'] = int(request.args.get('number', default=0))
+        human_input.update({ 'number': int(request.args.get('number', default=0)), 'move': request.args.get('move') })
         time.sleep(0.2)
         human = ''
         if names[len(moves) % 2] == 'Human':
-- 
2.43.0


From 89834d9bac70ff16c0dc6d0f6d25ec9b75a6001f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:24 +0000
Subject: [PATCH 18/63] fix: ignore a missing or non-ASCII human move

It raised in the match process and ended the game.
---
 cshogi/web/app.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cshogi/web/app.py b/cshogi/web/app.py
index 54f38cb..e5bfc90 100644
--- a/cshogi/web/app.py
+++ b/cshogi/web/app.py
@@ -35,9 +35,10 @@ class Human:
             human_input = self.human_input.copy()
             if human_input['number'] == self.board.move_number:
                 usi_move = human_input['move']
-                move = self.board.move_from_usi(usi_move)
-                if self.board.is_legal(move):
-                    return usi_move, None
+                if usi_move is not None and usi_move.isascii():
+                    move = self.board.move_from_usi(usi_move)
+                    if self.board.is_legal(move):
+                        return usi_move, None
             time.sleep(0.1)
 
     def quit(self, listener=None):
-- 
2.43.0


From b75896fac4cefddb03b1dd91994c07c95843a1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:24 +0000
Subject: [PATCH 19/63] fix: derive the side to move and the moves of a web
 response from one snapshot

The list of moves grows while a response is made, so the side a human may
move did not have to fit the moves sent with it.  /move looked at the
player's name instead of who is human, and never let a human with a name of
their own move again.
---
 cshogi/web/app.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/cshogi/web/app.py b/cshogi/web/app.py
index e5bfc90..d8eee93 100644
--- a/cshogi/web/app.py
+++ b/cshogi/web/app.py
@@ -330,19 +330,21 @@ def run(engine1: Optional[str] = None, engine2: Optional[str] = None, options1:
     def init_board():
         autoupdate = 'false'
         human = ''
+        current_moves = list(moves)
         if is_match == 'true':
             if match_proc.is_alive():
                 autoupdate = request.args.get('autoupdate', default=auto_update)
-                if humans[len(moves) % 2]:
-                    human = 'black' if len(moves) % 2 == 0 else 'white'
-        return render_template('board.html', names=names, moves=moves, is_match=is_match, autoupdate=autoupdate, human=human)
+                if humans[len(current_moves) % 2]:
+                    human = 'black' if len(current_moves) % 2 == 0 else 'white'
+        return render_template('board.html', names=names, moves=current_moves, is_match=is_match, autoupdate=autoupdate, human=human)
 
     @app.route("/update")
     def update():
         human = ''
-        if humans[len(moves) % 2]:
-            human = 'black' if len(moves) % 2 == 0 else 'white'
-        return { 'names': list(names), 'moves': list(moves), 'human':human }
+        current_moves = list(moves)
+        if humans[len(current_moves) % 2]:
+            human = 'black' if len(current_moves) % 2 == 0 else 'white'
+        return { 'names': list(names), 'moves': current_moves, 'human':human }
 
     @app.route("/move")
     def human_move():
@@ -350,9 +352,10 @@ def run(engine1: Optional[str] = None, engine2: Optional[str] = None, options1:
         human_input.update({ 'number': int(request.args.get('number', default=0)), 'move': request.args.get('move') })
         time.sleep(0.2)
         human = ''
-        if names[len(moves) % 2] == 'Human':
-            human = 'black' if len(moves) % 2 == 0 else 'white'
-        return { 'names': list(names), 'moves': list(moves), 'human':human }
+        current_moves = list(moves)
+        if humans[len(current_moves) % 2]:
+            human = 'black' if len(current_moves) % 2 == 0 else 'white'
+        return { 'names': list(names), 'moves': current_moves, 'human':human }
 
     server = make_server(host, port, app)
     server.serve_forever()
-- 
2.43.0


From 8a9262a14c1d1d75c1f3b0eea8b5c005d34c98bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:24 +0000
Subject: [PATCH 20/63] fix: accept options for a human player in a web match

---
 cshogi/web/app.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cshogi/web/app.py b/cshogi/web/app.py
index d8eee93..38df9a2 100644
--- a/cshogi/web/app.py
+++ b/cshogi/web/app.py
@@ -18,6 +18,9 @@ class Human:
     def usi(self, listener=None):
         return []
 
+    def setoption(self, name, value, listener=None):
+        pass
+
     def isready(self, listener=None):
         pass
 
-- 
2.43.0


From e7952e9ec8abd2ada28c5bf1c18b6f73224d3622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:24 +0000
Subject: [PATCH 21/63] fix: replay records without moves, without an end or
 ending in an illegal action

The web replay raised NameError or KeyError for them.
---
 cshogi/CSA.py     | 2 ++
 cshogi/web/app.py | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/cshogi/CSA.py b/cshogi/CSA.py
index cdf8b21..692536f 100644
--- a/cshogi/CSA.py
+++ b/cshogi/CSA.py
@@ -11,6 +11,8 @@ JAPANESE_END_GAMES = {
     '%ILLEGAL_MOVE': '反則負け',
     '%JISHOGI': '持将棋',
     '%KACHI': '入力宣言',
+    '%+ILLEGAL_ACTION': '反則勝ち',
+    '%-ILLEGAL_ACTION': '反則勝ち',
 }
 
 class Exporter:
diff --git a/cshogi/web/app.py b/cshogi/web/app.py
index 38df9a2..b28bb61 100644
--- a/cshogi/web/app.py
+++ b/cshogi/web/app.py
@@ -319,8 +319,8 @@ def run(engine1: Optional[str] = None, engine2: Optional[str] = None, options1:
                 'pv': ' '.join(pv),
                 })
         moves.append({
-            'number': i + 2,
-            'kif_move': TURN_SYMBOLS[(i + 1) % 2] + CSA.JAPANESE_END_GAMES[kif.endgame],
+            'number': len(kif.moves) + 1,
+            'kif_move': TURN_SYMBOLS[len(kif.moves) % 2] + CSA.JAPANESE_END_GAMES.get(kif.endgame, '中断'),
             'time': 0,
             'move': 0,
             'eval': 'null',
-- 
2.43.0


From a7a906c77c40556932f727b009ec0aca2c826081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:24 +0000
Subject: [PATCH 22/63] fix: export a CSA record from a starting position given
 as SFEN

---
 cshogi/CSA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cshogi/CSA.py b/cshogi/CSA.py
index 692536f..6098d3a 100644
--- a/cshogi/CSA.py
+++ b/cshogi/CSA.py
@@ -94,7 +94,7 @@ class Exporter:
                 self.f.write('PI\n+\n')
             else:
                 self.f.write(csa_pos)
-            self.turn = init_board.turn
+            self.turn = board.turn
         else:
             self.f.write('PI\n+\n')
             self.turn = cshogi.BLACK
-- 
2.43.0


From 779d65c5453cb3c1d9972478fc42318c3d9ff0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:15 +0000
Subject: [PATCH 23/63] fix: reject a USI drop followed by other text

---
 src/usi.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/usi.cpp b/src/usi.cpp
index dd8896e..9be0adf 100644
--- a/src/usi.cpp
+++ b/src/usi.cpp
@@ -61,11 +61,13 @@ namespace {
 }
 
 Move usiToMoveBody(const Position& pos, const std::string& moveStr) {
+    if (moveStr.size() != 4 && moveStr.size() != 5)
+        return Move::moveNone();
     Move move;
     if (g_charToPieceUSI.isLegalChar(moveStr[0])) {
         // drop
         const PieceType ptTo = pieceToPieceType(g_charToPieceUSI.value(moveStr[0]));
-        if (moveStr[1] != '*')
+        if (moveStr[1] != '*' || moveStr.size() != 4)
             return Move::moveNone();
         const File toFile = charUSIToFile(moveStr[2]);
         const Rank toRank = charUSIToRank(moveStr[3]);
@@ -85,13 +87,10 @@ Move usiToMoveBody(const Position& pos, const std::string& moveStr) {
         if (!isInSquare(toFile, toRank))
             return Move::moveNone();
         const Square to = makeSquare(toFile, toRank);
-        if (moveStr[4] == '\0')
+        if (moveStr.size() == 4)
             move = makeNonPromoteMove<Capture>(pieceToPieceType(pos.piece(from)), from, to, pos);
-        else if (moveStr[4] == '+') {
-            if (moveStr[5] != '\0')
-                return Move::moveNone();
+        else if (moveStr[4] == '+')
             move = makePromoteMove<Capture>(pieceToPieceType(pos.piece(from)), from, to, pos);
-        }
         else
             return Move::moveNone();
     }
-- 
2.43.0


From ca9557f56fc439dee20028732d7469e6961b4e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:26 +0000
Subject: [PATCH 24/63] fix: name of a win by declaration in a replay

---
 cshogi/CSA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cshogi/CSA.py b/cshogi/CSA.py
index 6098d3a..00e45ef 100644
--- a/cshogi/CSA.py
+++ b/cshogi/CSA.py
@@ -10,7 +10,7 @@ JAPANESE_END_GAMES = {
     '%TIME_UP': '切れ負け',
     '%ILLEGAL_MOVE': '反則負け',
     '%JISHOGI': '持将棋',
-    '%KACHI': '入力宣言',
+    '%KACHI': '入玉宣言',
     '%+ILLEGAL_ACTION': '反則勝ち',
     '%-ILLEGAL_ACTION': '反則勝ち',
 }
-- 
2.43.0


From 2b7e2bfee98814507d2e70b32ef4142e4e74f58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:41 +0000
Subject: [PATCH 25/63] fix: reject SFEN strings that do not describe a
 position

A rank of the wrong length, a missing rank, side to move or hand, a promoted
gold or king, a king in hand or more pieces in hand than a set has were read
as some other position or corrupted memory.
---
 src/position.cpp | 48 ++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 42 insertions(+), 6 deletions(-)

diff --git a/src/position.cpp b/src/position.cpp
index 8cca77f..07aca12 100644
--- a/src/position.cpp
+++ b/src/position.cpp
@@ -3319,6 +3319,11 @@ void Position::printHand(std::ostream& os, const Color c) const {
     printHandPiece(os, *this, HRook  , c, "HI");
 }
 
+namespace {
+    // 持ち駒の枚数の上限
+    const int MaxHandPieceNum[HandPieceNum] = {18, 4, 4, 4, 4, 2, 2};
+}
+
 Position& Position::operator = (const Position& pos) {
     memcpy(this, &pos, sizeof(Position));
     startState_ = *st_;
@@ -3333,21 +3338,40 @@ void Position::set(const std::string& sfen) {
     std::istringstream ss(sfen);
     char token;
     Square sq = SQ91;
+    int ranks = 1;
+    int squares = 0; // 読み込み中の段のマス数
+    bool existsTurn = false;
+    bool existsHand = false;
+    int digits = 0;
 
     clear();
 
     // 盤上の駒
     while (ss.get(token) && token != ' ') {
-        if (isdigit(token))
+        if (isdigit(token)) {
+            if (promoteFlag == Promoted)
+                goto INCORRECT;
+            squares += token - '0';
             sq += DeltaE * (token - '0');
-        else if (token == '/')
+        }
+        else if (token == '/') {
+            if (promoteFlag == Promoted || squares != 9)
+                goto INCORRECT;
+            ++ranks;
+            squares = 0;
             sq += (DeltaW * 9) + DeltaS;
-        else if (token == '+')
+        }
+        else if (token == '+') {
+            if (promoteFlag == Promoted)
+                goto INCORRECT;
             promoteFlag = Promoted;
+        }
         else if (g_charToPieceUSI.isLegalChar(token)) {
-            if (isInSquare(sq)) {
+            const PieceType pt = pieceToPieceType(g_charToPieceUSI.value(token));
+            if (isInSquare(sq) && squares < 9 && !(promoteFlag == Promoted && (pt == Gold || pt == King))) {
                 setPiece(g_charToPieceUSI.value(token) + promoteFlag, sq);
                 promoteFlag = UnPromoted;
+                ++squares;
                 sq += DeltaE;
             }
             else
@@ -3356,6 +3380,8 @@ void Position::set(const std::string& sfen) {
         else
             goto INCORRECT;
     }
+    if (promoteFlag == Promoted || ranks != 9 || squares != 9)
+        goto INCORRECT;
     kingSquare_[Black] = king_square_or_square_num(bbOf(King, Black));
     kingSquare_[White] = king_square_or_square_num(bbOf(King, White));
     goldsBB_ = bbOf(Gold, ProPawn, ProLance, ProKnight, ProSilver);
@@ -3368,24 +3394,34 @@ void Position::set(const std::string& sfen) {
             turn_ = White;
         else
             goto INCORRECT;
+        existsTurn = true;
     }
 
     // 持ち駒
-    for (int digits = 0; ss.get(token) && token != ' '; ) {
+    while (ss.get(token) && token != ' ') {
         if (token == '-')
             memset(hand_, 0, sizeof(hand_));
-        else if (isdigit(token))
+        else if (isdigit(token)) {
             digits = digits * 10 + token - '0';
+            if (digits > MaxHandPieceNum[HPawn])
+                goto INCORRECT;
+        }
         else if (g_charToPieceUSI.isLegalChar(token)) {
             // 持ち駒を32bit に pack する
             const Piece piece = g_charToPieceUSI.value(token);
+            const PieceType pt = pieceToPieceType(piece);
+            if (pt == King || digits > MaxHandPieceNum[pieceTypeToHandPiece(pt)])
+                goto INCORRECT;
             setHand(piece, (digits == 0 ? 1 : digits));
 
             digits = 0;
         }
         else
             goto INCORRECT;
+        existsHand = true;
     }
+    if (!existsTurn || !existsHand || digits != 0)
+        goto INCORRECT;
 
     // 次の手が何手目か
     ss >> gamePly_;
-- 
2.43.0


From daf0a9f151385b938f96cce3e7abc603c8395eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:21 +0000
Subject: [PATCH 26/63] fix: reject packed positions that are not a whole code

---
 src/position.cpp | 58 +++++++++++++++++++++++++++++++++++-------------
 1 file changed, 42 insertions(+), 16 deletions(-)

diff --git a/src/position.cpp b/src/position.cpp
index 07aca12..d15a9d0 100644
--- a/src/position.cpp
+++ b/src/position.cpp
@@ -3473,8 +3473,12 @@ void Position::set(const Piece pieces[SquareNum], const int pieces_in_hand[Color
 void Position::set_hcp(const char* hcp_data) {
     clear();
 
-    HuffmanCodedPos tmp(hcp_data); // ローカルにコピー
-    BitStream bs(tmp.data);
+    u8 tmp[sizeof(HuffmanCodedPos::data) + 1] = {}; // ローカルにコピー
+    std::memcpy(tmp, hcp_data, sizeof(HuffmanCodedPos::data));
+    BitStream bs(tmp);
+    // 玉がない場合は、玉の分のマスが1マスあたり1bit増える。
+    int numOfBits = sizeof(HuffmanCodedPos::data) * 8;
+    const auto isEnd = [&] { return (bs.data() - tmp) * 8 + bs.curr() >= numOfBits; };
 
     // 手番
     turn_ = static_cast<Color>(bs.getBit());
@@ -3482,15 +3486,21 @@ void Position::set_hcp(const char* hcp_data) {
     // 玉の位置
     Square sq0 = (Square)bs.getBits(7);
     Square sq1 = (Square)bs.getBits(7);
-    setPiece(BKing, static_cast<Square>(sq0));
-    setPiece(WKing, static_cast<Square>(sq1));
+    if (sq0 > SquareNum || sq1 > SquareNum || sq0 == sq1)
+        goto INCORRECT_HUFFMAN_CODE;
+    if (sq0 != SquareNum)
+        setPiece(BKing, sq0);
+    if (sq1 != SquareNum)
+        setPiece(WKing, sq1);
+    if (sq0 == SquareNum || sq1 == SquareNum)
+        ++numOfBits;
 
     // 盤上の駒
     for (Square sq = SQ11; sq < SquareNum; ++sq) {
         if (pieceToPieceType(piece(sq)) == King) // piece(sq) は BKing, WKing, Empty のどれか。
             continue;
         HuffmanCode hc = {0, 0};
-        while (hc.numOfBits <= 8) {
+        while (hc.numOfBits <= 8 && !isEnd()) {
             hc.code |= bs.getBit() << hc.numOfBits++;
             if (HuffmanCodedPos::boardCodeToPieceHash.value(hc.key) != PieceNone) {
                 const Piece pc = HuffmanCodedPos::boardCodeToPieceHash.value(hc.key);
@@ -3502,15 +3512,18 @@ void Position::set_hcp(const char* hcp_data) {
         if (HuffmanCodedPos::boardCodeToPieceHash.value(hc.key) == PieceNone)
             goto INCORRECT_HUFFMAN_CODE;
     }
-    while (bs.data() != std::end(tmp.data)) {
+    while (!isEnd()) {
         HuffmanCode hc = {0, 0};
-        while (hc.numOfBits <= 8) {
+        while (hc.numOfBits <= 8 && !isEnd()) {
             hc.code |= bs.getBit() << hc.numOfBits++;
             const Piece pc = HuffmanCodedPos::handCodeToPieceHash.value(hc.key);
             if (pc == Empty)
                 break;
             if (pc != PieceNone) {
-                hand_[pieceToColor(pc)].plusOne(pieceTypeToHandPiece(pieceToPieceType(pc)));
+                const HandPiece hp = pieceTypeToHandPiece(pieceToPieceType(pc));
+                if ((int)hand_[pieceToColor(pc)].numOf(hp) >= MaxHandPieceNum[hp])
+                    goto INCORRECT_HUFFMAN_CODE;
+                hand_[pieceToColor(pc)].plusOne(hp);
                 break;
             }
         }
@@ -3539,8 +3552,12 @@ INCORRECT_HUFFMAN_CODE:
 void Position::set_psfen(const char* psfen_data) {
     clear();
 
-    PackedSfen tmp(psfen_data); // ローカルにコピー
-    BitStream bs(tmp.data);
+    u8 tmp[sizeof(PackedSfen::data) + 1] = {}; // ローカルにコピー
+    std::memcpy(tmp, psfen_data, sizeof(PackedSfen::data));
+    BitStream bs(tmp);
+    // 玉がない場合は、玉の分のマスが1マスあたり1bit増える。
+    int numOfBits = sizeof(PackedSfen::data) * 8;
+    const auto isEnd = [&] { return (bs.data() - tmp) * 8 + bs.curr() >= numOfBits; };
 
     // 手番
     turn_ = static_cast<Color>(bs.getBit());
@@ -3548,15 +3565,21 @@ void Position::set_psfen(const char* psfen_data) {
     // 玉の位置
     Square sq0 = (Square)bs.getBits(7);
     Square sq1 = (Square)bs.getBits(7);
-    setPiece(BKing, static_cast<Square>(sq0));
-    setPiece(WKing, static_cast<Square>(sq1));
+    if (sq0 > SquareNum || sq1 > SquareNum || sq0 == sq1)
+        goto INCORRECT_HUFFMAN_CODE;
+    if (sq0 != SquareNum)
+        setPiece(BKing, sq0);
+    if (sq1 != SquareNum)
+        setPiece(WKing, sq1);
+    if (sq0 == SquareNum || sq1 == SquareNum)
+        ++numOfBits;
 
     // 盤上の駒
     for (Square sq = SQ11; sq < SquareNum; ++sq) {
         if (pieceToPieceType(piece(sq)) == King) // piece(sq) は BKing, WKing, Empty のどれか。
             continue;
         HuffmanCode hc = { 0, 0 };
-        while (hc.numOfBits <= 8) {
+        while (hc.numOfBits <= 8 && !isEnd()) {
             hc.code |= bs.getBit() << hc.numOfBits++;
             if (PackedSfen::boardCodeToPieceHash.value(hc.key) != PieceNone) {
                 const Piece pc = PackedSfen::boardCodeToPieceHash.value(hc.key);
@@ -3568,15 +3591,18 @@ void Position::set_psfen(const char* psfen_data) {
         if (PackedSfen::boardCodeToPieceHash.value(hc.key) == PieceNone)
             goto INCORRECT_HUFFMAN_CODE;
     }
-    while (bs.data() != std::end(tmp.data)) {
+    while (!isEnd()) {
         HuffmanCode hc = { 0, 0 };
-        while (hc.numOfBits <= 8) {
+        while (hc.numOfBits <= 8 && !isEnd()) {
             hc.code |= bs.getBit() << hc.numOfBits++;
             const Piece pc = PackedSfen::handCodeToPieceHash.value(hc.key);
             if (pc == Empty)
                 break;
             if (pc != PieceNone) {
-                hand_[pieceToColor(pc)].plusOne(pieceTypeToHandPiece(pieceToPieceType(pc)));
+                const HandPiece hp = pieceTypeToHandPiece(pieceToPieceType(pc));
+                if ((int)hand_[pieceToColor(pc)].numOf(hp) >= MaxHandPieceNum[hp])
+                    goto INCORRECT_HUFFMAN_CODE;
+                hand_[pieceToColor(pc)].plusOne(hp);
                 break;
             }
         }
-- 
2.43.0


From 95ae8f4255fb82b9cf10fa2eab8751fd1fa81e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:58 +0000
Subject: [PATCH 27/63] fix: leave the board unchanged when loading a position
 fails

---
 cshogi/_cshogi.pyx |  2 +-
 src/cshogi.h       | 21 ++++++++++++++-------
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/cshogi/_cshogi.pyx b/cshogi/_cshogi.pyx
index 9a56bcb..02c3c48 100644
--- a/cshogi/_cshogi.pyx
+++ b/cshogi/_cshogi.pyx
@@ -260,7 +260,7 @@ cdef extern from "cshogi.h":
         __Board() except +
         __Board(const string& sfen) except +
         __Board(const __Board& board) except +
-        void set(const string& sfen)
+        void set(const string& sfen) except +
         void set_position(const string& position) except +
         void set_pieces(const int pieces[], const int pieces_in_hand[][7])
         void set_hcp(char* hcp) except +
diff --git a/src/cshogi.h b/src/cshogi.h
index a7d1e4b..89b4a41 100644
--- a/src/cshogi.h
+++ b/src/cshogi.h
@@ -101,12 +101,13 @@ public:
     }
     ~__Board() {}
 
+    // 不正な入力の場合は例外を投げ、局面と履歴は変更しない。
     void set(const std::string& sfen) {
+        const Position newPos(sfen);
         history.clear();
-        pos.set(sfen);
+        pos = newPos;
     }
     void set_position(const std::string& position) {
-        history.clear();
         std::istringstream ssPosCmd(position);
         std::string token;
         std::string sfen;
@@ -124,25 +125,31 @@ public:
         else
             throw std::runtime_error("incorrect position string");
 
-        pos.set(sfen);
+        __Board board(sfen);
 
         while (ssPosCmd >> token) {
-            const Move move = usiToMove(pos, token);
+            const Move move = usiToMove(board.pos, token);
             if (!move) throw std::runtime_error("incorrect move string : " + token);
-            push(move.value());
+            board.push(move.value());
         }
+
+        *this = board;
     }
     void set_pieces(const int pieces[], const int pieces_in_hand[][7]) {
         history.clear();
         pos.set((const Piece*)pieces, pieces_in_hand);
     }
     void set_hcp(char* hcp) {
+        Position newPos;
+        newPos.set_hcp(hcp);
         history.clear();
-        pos.set_hcp(hcp);
+        pos = newPos;
     }
     void set_psfen(char* psfen) {
+        Position newPos;
+        newPos.set_psfen(psfen);
         history.clear();
-        pos.set_psfen(psfen);
+        pos = newPos;
     }
 
     void reset() {
-- 
2.43.0


From 74543a8f1ae1c0b152a48f2462e53ed87ccaaf3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:58 +0000
Subject: [PATCH 28/63] fix: raise IndexError on pop from an empty history

---
 cshogi/_cshogi.pyx | 4 ++--
 src/cshogi.h       | 2 ++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/cshogi/_cshogi.pyx b/cshogi/_cshogi.pyx
index 02c3c48..2ba373d 100644
--- a/cshogi/_cshogi.pyx
+++ b/cshogi/_cshogi.pyx
@@ -268,7 +268,7 @@ cdef extern from "cshogi.h":
         void reset()
         string dump()
         void push(const int move)
-        int pop()
+        int pop() except +
         int peek()
         vector[int] get_history()
         bool is_game_over()
@@ -305,7 +305,7 @@ cdef extern from "cshogi.h":
         void piece_planes_rotate(char* mem)
         void _dlshogi_make_input_features(char* mem1, char* mem2)
         void push_pass()
-        void pop_pass()
+        void pop_pass() except +
         bool isOK()
         unsigned long long bookKey()
         unsigned long long bookKeyAfter(const unsigned long long key, const int move)
diff --git a/src/cshogi.h b/src/cshogi.h
index 89b4a41..581eb90 100644
--- a/src/cshogi.h
+++ b/src/cshogi.h
@@ -169,6 +169,7 @@ public:
     }
 
     int pop() {
+        if (history.empty()) throw std::out_of_range("pop from empty history");
         const auto move = history.back().first;
         pos.undoMove(move);
         history.pop_back();
@@ -187,6 +188,7 @@ public:
         pos.doNullMove<true>(history.back().second);
     }
     void pop_pass() {
+        if (history.empty()) throw std::out_of_range("pop from empty history");
         pos.doNullMove<false>(history.back().second);
         history.pop_back();
     }
-- 
2.43.0


From 436faee5470c4d08b5b1dbcfc24a65157ac0411c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:58 +0000
Subject: [PATCH 29/63] fix: keep two-digit hand counts in rotate_sfen

---
 src/cshogi.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/cshogi.h b/src/cshogi.h
index 581eb90..550d634 100644
--- a/src/cshogi.h
+++ b/src/cshogi.h
@@ -619,17 +619,20 @@ std::string __rotate_sfen(const std::string& sfen) {
         for (int i = 0; i < hand.length(); i++) {
             char c = hand[i];
 
-            if (c >= '2' && c <= '9') {
-                // 数字の場合、次の駒と組み合わせる
-                i++;
+            if (c >= '0' && c <= '9') {
+                // 数字(2桁の場合もある)の場合、次の駒と組み合わせる
+                std::string num;
+                while (i < hand.length() && hand[i] >= '0' && hand[i] <= '9') {
+                    num += hand[i++];
+                }
                 if (i < hand.length()) {
                     char piece = hand[i];
                     if (piece >= 'A' && piece <= 'Z') {
-                        senteHand += c;
+                        senteHand += num;
                         senteHand += piece;
                     }
                     else {
-                        goteHand += c;
+                        goteHand += num;
                         goteHand += piece;
                     }
                 }
-- 
2.43.0


From aed220baabc0ca657efc402047d47e6bb6cbf437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:58 +0000
Subject: [PATCH 30/63] fix: count the move's own check in move_is_draw

---
 src/position.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/position.cpp b/src/position.cpp
index d15a9d0..3130fcd 100644
--- a/src/position.cpp
+++ b/src/position.cpp
@@ -3280,15 +3280,17 @@ RepetitionType Position::moveIsDraw(const Move move, const int checkMaxPly) cons
         // ここでまず 1 手戻る。
         StateInfo* stp = st_->previous;
         Key key = getKeyAfter(move);
+        // move を指した後の連続王手の手数
+        const int continuousCheck = moveGivesCheck(move) ? st_->continuousCheck[turn()] + 2 : 0;
 
         do {
             // 更に 2 手戻る。
             stp = stp->previous->previous;
             if (stp->key() == key) {
-                if (i <= st_->continuousCheck[turn()])
-                    return RepetitionWin;
-                else if (i <= st_->continuousCheck[oppositeColor(turn())])
+                if (i <= st_->continuousCheck[oppositeColor(turn())])
                     return RepetitionLose;
+                else if (i <= continuousCheck)
+                    return RepetitionWin;
                 else
                     return RepetitionDraw;
             }
-- 
2.43.0


From 6b6f068b57555a3f7f6a70f8d3000659d79c27b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:30 +0000
Subject: [PATCH 31/63] fix: reject 0 as a number of empty squares in SFEN

---
 src/position.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/position.cpp b/src/position.cpp
index 3130fcd..ed3b2bc 100644
--- a/src/position.cpp
+++ b/src/position.cpp
@@ -3351,7 +3351,7 @@ void Position::set(const std::string& sfen) {
     // 盤上の駒
     while (ss.get(token) && token != ' ') {
         if (isdigit(token)) {
-            if (promoteFlag == Promoted)
+            if (promoteFlag == Promoted || token == '0')
                 goto INCORRECT;
             squares += token - '0';
             sq += DeltaE * (token - '0');
-- 
2.43.0


From d9b87aaa581df9c12bda654f9deb6206c8acef9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:58 +0000
Subject: [PATCH 32/63] fix: end the search for a mate in 0 moves

---
 src/mate.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mate.cpp b/src/mate.cpp
index 6c9fb3f..ae02455 100644
--- a/src/mate.cpp
+++ b/src/mate.cpp
@@ -235,7 +235,12 @@ bool mateMoveInEvenPly(Position& pos, const int depth)
         default: UNREACHABLE;
         }
 
-        if (depth == 4) {
+        if (depth <= 0) {
+            // 王手を回避する手がある
+            pos.undoMove(ml.move);
+            return false;
+        }
+        else if (depth == 4) {
             // 3手詰めかどうか
             if (givesCheck ? !mateMoveIn3Ply<true>(pos) : !mateMoveIn3Ply<false>(pos)) {
                 // 3手詰めでない場合
-- 
2.43.0


From 4adc5b006bb8f8570d21a595d9cf4d727b1e54ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:58 +0000
Subject: [PATCH 33/63] fix: mate in one ply while in check

---
 src/cshogi.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/cshogi.h b/src/cshogi.h
index 550d634..a7bf59f 100644
--- a/src/cshogi.h
+++ b/src/cshogi.h
@@ -248,7 +248,12 @@ public:
     int piece(const int sq) const { return (int)pos.piece((Square)sq); }
     int kingSquare(const int c) { return (int)pos.kingSquare((Color)c); }
     bool inCheck() const { return pos.inCheck(); }
-    int mateMoveIn1Ply() { return pos.mateMoveIn1Ply().value(); }
+    int mateMoveIn1Ply() {
+        // Position::mateMoveIn1Ply は王手がかかっていないことが前提
+        if (pos.inCheck())
+            return mateMoveInOddPlyReturnMove<true>(pos, 1).value();
+        return pos.mateMoveIn1Ply().value();
+    }
     int mateMove(int ply) {
         if (pos.inCheck())
             return mateMoveInOddPlyReturnMove<true>(pos, ply).value();
-- 
2.43.0


From a2d2b50d2ff32bd2a0a4911dca63b6948f61bf54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:24 +0000
Subject: [PATCH 34/63] fix: read KI2 moves several pieces could make

---
 cshogi/KI2.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cshogi/KI2.py b/cshogi/KI2.py
index 47f55a5..6af76c3 100644
--- a/cshogi/KI2.py
+++ b/cshogi/KI2.py
@@ -98,6 +98,9 @@ class Parser:
                 candidates = [move for move in board.legal_moves if move_to(move) == to_square and (not move_is_drop(move) and move_from_piece_type(move) == piece_type or move_is_drop(move) and hand_piece_to_piece_type(move_drop_hand_piece(move)) == piece_type)]
 
                 if m.group(6) or m.group(7):
+                    # 打つ手には相対位置と動作を付けない
+                    candidates = [move for move in candidates if not move_is_drop(move)]
+
                     from_file_min = from_rank_min = 9
                     from_file_max = from_rank_max = 0
                     for move in candidates:
@@ -146,6 +149,9 @@ class Parser:
 
                 if len(candidates) > 1:
                     candidates = [move for move in candidates if not move_is_drop(move)]
+                    if len(candidates) > 1:
+                        # 他の駒は動作だけで区別できる
+                        candidates = [move for move in candidates if re.search('(左|直|右)?(上|寄|引)?(成|不成)?$', move_to_ki2(move, board)).groups() == m.groups()[5:]]
                     assert len(candidates) == 1
                 move = candidates[0]
                 moves.append(move)
-- 
2.43.0


From a744d73387de07de03587af69a44e290716e1842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:24 +0000
Subject: [PATCH 35/63] fix: read KIF records that start from a board diagram

---
 cshogi/KIF.py | 37 +++++++++++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/cshogi/KIF.py b/cshogi/KIF.py
index 2c0244e..5e9cfd5 100755
--- a/cshogi/KIF.py
+++ b/cshogi/KIF.py
@@ -121,6 +121,30 @@ class Parser:
                 raise ParserException('Invalid pieces in hand')
         return result
 
+    @staticmethod
+    def parse_bod(board_lines, pieces_in_hand, turn):
+        """Parses a board diagram.
+
+        :param board_lines: The nine lines of the diagram.
+        :param pieces_in_hand: Dictionaries representing the pieces in hand of both players.
+        :param turn: The side to move.
+        :return: The SFEN of the position.
+        :raises KIF.ParserException: In the case of a parse error.
+        """
+        pieces = [cshogi.NONE] * 81
+        for rank, line in enumerate(board_lines):
+            line = line.replace('王', '玉').replace('竜', '龍')
+            for i in range(9):
+                symbol = line[1 + i * 2:3 + i * 2]
+                if len(symbol) != 2 or symbol not in PIECE_BOD_SYMBOLS:
+                    raise ParserException('Invalid board diagram')
+                pieces[(8 - i) * 9 + rank] = PIECE_BOD_SYMBOLS.index(symbol)
+        hands = tuple([hand.get(cshogi.hand_piece_to_piece_type(hp), 0) for hp in range(7)] for hand in pieces_in_hand)
+        board = Board()
+        board.set_pieces(pieces, hands)
+        board.turn = turn
+        return board.sfen()
+
     @staticmethod
     def parse_move_str(line: str, board: Board):
         """Parses a string of moves and applies them to a given board.
@@ -192,6 +216,8 @@ class Parser:
         names = [None, None]
         pieces_in_hand = [{}, {}]
         sfen = cshogi.STARTING_SFEN
+        board_lines = []
+        turn = cshogi.BLACK
         var_info = {}
         header_comments = []
         moves = []
@@ -239,10 +265,10 @@ class Parser:
                     names[cshogi.WHITE] = value
                 elif key == '先手の持駒' or key == '下手の持駒': # sente or shitate's pieces in hand
                     # First player's pieces in hand
-                    pieces_in_hand[cshogi.BLACK] == Parser.parse_pieces_in_hand(value)
+                    pieces_in_hand[cshogi.BLACK] = Parser.parse_pieces_in_hand(value)
                 elif key == '後手の持駒' or key == '上手の持駒': # gote or uwate's pieces in hand
                     # Second player's pieces in hand
-                    pieces_in_hand[cshogi.WHITE] == Parser.parse_pieces_in_hand(value)
+                    pieces_in_hand[cshogi.WHITE] = Parser.parse_pieces_in_hand(value)
                 elif key == '手合割': # teai wari
                     sfen = Parser.HANDYCAP_SFENS[value]
                     if sfen is None:
@@ -250,7 +276,14 @@ class Parser:
                     board.set_sfen(sfen)
                 else:
                     var_info[key] = value
+            elif line[0] == '|':
+                board_lines.append(line)
+            elif line == '後手番' or line == '上手番':
+                turn = cshogi.WHITE
             else:
+                if len(board_lines) == 9 and len(moves) == 0:
+                    sfen = Parser.parse_bod(board_lines, pieces_in_hand, turn)
+                    board.set_sfen(sfen)
                 move, time, endmove = Parser.parse_move_str(line, board)
                 if move is not None:
                     moves.append(move)
-- 
2.43.0


From 09cd00b6b7f9b0f1971208c3a91b72208c742b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:24 +0000
Subject: [PATCH 36/63] fix: read a KIF impasse as one and count its moves

---
 cshogi/KI2.py | 2 +-
 cshogi/KIF.py | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/cshogi/KI2.py b/cshogi/KI2.py
index 6af76c3..0f54276 100644
--- a/cshogi/KI2.py
+++ b/cshogi/KI2.py
@@ -597,7 +597,7 @@ class Exporter:
         if reason == '%TORYO':
             self.kifu.write('まで{}手で{}の勝ち\n'.format(self.board.move_number - 1, '先手' if self.board.turn == cshogi.WHITE else '後手'))
         elif reason == '%JISHOGI':
-            self.kifu.write('まで{}手で持将棋\n'.format(self.board.move_number + 1))
+            self.kifu.write('まで{}手で持将棋\n'.format(self.board.move_number - 1))
         elif reason == '%KACHI':
             self.kifu.write('まで{}手で{}の入玉勝ち\n'.format(self.board.move_number - 1, '先手' if self.board.turn == cshogi.BLACK else '後手'))
         elif reason == '%SENNICHITE':
diff --git a/cshogi/KIF.py b/cshogi/KIF.py
index 5e9cfd5..e42377e 100755
--- a/cshogi/KIF.py
+++ b/cshogi/KIF.py
@@ -311,6 +311,9 @@ class Parser:
                             else:
                                 win = WHITE_WIN
                                 endgame = '%-ILLEGAL_ACTION' if m.group(4) == '反則勝ち' else ('%KACHI' if m.group(4) == '入玉勝ち' else '%TORYO')
+                        elif m.group(2) == '持将棋':
+                            win = DRAW
+                            endgame = '%JISHOGI'
                         elif m.group(2) == '中断':
                             win = None
                             endgame = '%CHUDAN'
@@ -534,7 +537,7 @@ class Exporter:
         if reason == 'resign':
             self.kifu.write('まで{}手で{}の勝ち\n'.format(self.move_number - 1, '先手' if self.move_number % 2 == 0 else '後手'))
         elif reason == 'draw':
-            self.kifu.write('まで{}手で持将棋\n'.format(self.move_number + 1))
+            self.kifu.write('まで{}手で持将棋\n'.format(self.move_number - 1))
         elif reason == 'win':
             self.kifu.write('まで{}手で入玉宣言\n'.format(self.move_number - 1))
         elif reason == 'sennichite':
-- 
2.43.0


From 983de4d7a28c90cbc48f24cba9ebb269e301957a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:24 +0000
Subject: [PATCH 37/63] fix: keep the winner of a declaration in KIF records

---
 cshogi/KIF.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cshogi/KIF.py b/cshogi/KIF.py
index e42377e..01ceb32 100755
--- a/cshogi/KIF.py
+++ b/cshogi/KIF.py
@@ -62,7 +62,7 @@ class ParserException(Exception):
 class Parser:
     """A class for parsing Japanese Shogi notation in KIF format."""
 
-    MOVE_RE = re.compile(r'\A *[0-9]+\s+(中断|投了|持将棋|千日手|詰み|切れ負け|反則勝ち|反則負け|(([１２３４５６７８９])([零一二三四五六七八九])|同　)([歩香桂銀金角飛玉と杏圭全馬龍])(打|(成?)\(([0-9])([0-9])\)))\s*(\( *([:0-9]+)/([:0-9]+)\))?.*\Z')
+    MOVE_RE = re.compile(r'\A *[0-9]+\s+(中断|入玉勝ち|入玉宣言|投了|持将棋|千日手|詰み|切れ負け|反則勝ち|反則負け|(([１２３４５６７８９])([零一二三四五六七八九])|同　)([歩香桂銀金角飛玉と杏圭全馬龍])(打|(成?)\(([0-9])([0-9])\)))\s*(\( *([:0-9]+)/([:0-9]+)\))?.*\Z')
 
     HANDYCAP_SFENS = {
         '平手': cshogi.STARTING_SFEN,
@@ -170,6 +170,7 @@ class Parser:
                 time = None
             if m.group(1) not in [
                     '入玉勝ち',
+                    '入玉宣言',
                     '中断',
                     '投了',
                     '持将棋',
@@ -539,7 +540,7 @@ class Exporter:
         elif reason == 'draw':
             self.kifu.write('まで{}手で持将棋\n'.format(self.move_number - 1))
         elif reason == 'win':
-            self.kifu.write('まで{}手で入玉宣言\n'.format(self.move_number - 1))
+            self.kifu.write('まで{}手で{}の入玉勝ち\n'.format(self.move_number - 1, '先手' if self.move_number % 2 == 1 else '後手'))
         elif reason == 'sennichite':
             self.kifu.write('まで{}手で千日手\n'.format(self.move_number - 1))
         elif reason == 'illegal_win':
-- 
2.43.0


From 0008013196700c421cf9847f11ceb5eb33a30e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:24 +0000
Subject: [PATCH 38/63] fix: winner and scores in KIF records in which White
 moves first

---
 cshogi/KIF.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/cshogi/KIF.py b/cshogi/KIF.py
index 01ceb32..8dd6576 100755
--- a/cshogi/KIF.py
+++ b/cshogi/KIF.py
@@ -449,6 +449,7 @@ class Exporter:
         self.kifu = open(path, 'w', encoding=enc)
         self.prev_move = None
         self.move_number = 1
+        self.first_turn = cshogi.BLACK
 
     def close(self):
         """Close the file."""
@@ -472,7 +473,10 @@ class Exporter:
             else:
                 board = Board(sfen=handicap[5:])
             self.kifu.write(board_to_bod(board) + '\n')
+            self.first_turn = board.turn
         else:
+            if handicap != '平手':
+                self.first_turn = cshogi.WHITE
             self.kifu.write('手合割：' + handicap + '\n')
         self.kifu.write('先手：' + names[0] + '\n')
         self.kifu.write('後手：' + names[1] + '\n')
@@ -505,6 +509,9 @@ class Exporter:
         self.move_number += 1
         self.prev_move = move
 
+    def last_turn(self):
+        return self.first_turn if self.move_number % 2 == 0 else cshogi.opponent(self.first_turn)
+
     def end(self, reason: str, sec: int = 0, sec_sum: int = 0):
         """Record the end of the game.
 
@@ -536,24 +543,24 @@ class Exporter:
 
         # 結果出力
         if reason == 'resign':
-            self.kifu.write('まで{}手で{}の勝ち\n'.format(self.move_number - 1, '先手' if self.move_number % 2 == 0 else '後手'))
+            self.kifu.write('まで{}手で{}の勝ち\n'.format(self.move_number - 1, '先手' if self.last_turn() == cshogi.BLACK else '後手'))
         elif reason == 'draw':
             self.kifu.write('まで{}手で持将棋\n'.format(self.move_number - 1))
         elif reason == 'win':
-            self.kifu.write('まで{}手で{}の入玉勝ち\n'.format(self.move_number - 1, '先手' if self.move_number % 2 == 1 else '後手'))
+            self.kifu.write('まで{}手で{}の入玉勝ち\n'.format(self.move_number - 1, '後手' if self.last_turn() == cshogi.BLACK else '先手'))
         elif reason == 'sennichite':
             self.kifu.write('まで{}手で千日手\n'.format(self.move_number - 1))
         elif reason == 'illegal_win':
-            self.kifu.write('まで{}手で{}の反則勝ち\n'.format(self.move_number - 1, '先手' if self.move_number % 2 == 0 else '後手'))
+            self.kifu.write('まで{}手で{}の反則勝ち\n'.format(self.move_number - 1, '先手' if self.last_turn() == cshogi.BLACK else '後手'))
         elif reason == 'illegal_lose':
-            self.kifu.write('まで{}手で{}の反則負け\n'.format(self.move_number - 1, '先手' if self.move_number % 2 == 0 else '後手'))
+            self.kifu.write('まで{}手で{}の反則負け\n'.format(self.move_number - 1, '先手' if self.last_turn() == cshogi.BLACK else '後手'))
 
     def info(self, info):
         """Record additional information related to the game.
 
         :param info: A string containing additional information.
         """
-        turn = self.move_number % 2
+        turn = self.last_turn()
         items = info.split(' ')
         comment = '**対局'
         i = 1
-- 
2.43.0


From 4bf1103d9a39af91dfbe9907e3344abbd657d0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:24 +0000
Subject: [PATCH 39/63] fix: mate scores without a sign in KIF comments

---
 cshogi/KIF.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cshogi/KIF.py b/cshogi/KIF.py
index 8dd6576..6032bc9 100755
--- a/cshogi/KIF.py
+++ b/cshogi/KIF.py
@@ -585,11 +585,11 @@ class Exporter:
                     comment += ' 評価値 {}'.format(items[i] if turn == cshogi.BLACK else -int(items[i]))
                 elif items[i] == 'mate':
                     i += 1
-                    if items[i][0:1] == '+':
+                    if items[i][0:1] != '-':
                         comment += ' +詰' if turn == cshogi.BLACK else ' -詰'
                     else:
                         comment += ' -詰' if turn == cshogi.BLACK else ' +詰'
-                    comment += str(items[i][1:])
+                    comment += items[i].lstrip('+-')
             else:
                 i += 1
         self.kifu.write(comment + '\n')
-- 
2.43.0


From 2ab38df1c66f00c6cc3de7712446b7a5e6d138b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:24 +0000
Subject: [PATCH 40/63] fix: read times on the line of a CSA move

---
 src/parser.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/parser.h b/src/parser.h
index bba7ee1..4d5bdc5 100644
--- a/src/parser.h
+++ b/src/parser.h
@@ -227,10 +227,15 @@ namespace parser {
                         pos.doMove(move, states->back());
                         times.resize(moves.size());
                         scores.resize(moves.size());
-                        // Comment
                         comments.resize(moves.size());
-                        if (line.substr(7, 2) == ",\'") {
-                            comments[moves.size() - 1] = line.substr(9);
+                        // Time and comment on the same line
+                        for (auto sep = line.find(',', 7); sep != std::string::npos; sep = line.find(',', sep + 1)) {
+                            if (line.compare(sep, 2, ",\'") == 0) {
+                                comments.back() = line.substr(sep + 2);
+                                break;
+                            }
+                            if (line.compare(sep, 2, ",T") == 0)
+                                times.back() = std::stoi(line.substr(sep + 2));
                         }
                     }
                 }
-- 
2.43.0


From 84c908770dd6f2da197b1404629e9e03952663fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:24 +0000
Subject: [PATCH 41/63] fix: end a quoted CSA comment with a newline

---
 cshogi/CSA.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cshogi/CSA.py b/cshogi/CSA.py
index 00e45ef..a305bd9 100644
--- a/cshogi/CSA.py
+++ b/cshogi/CSA.py
@@ -72,6 +72,8 @@ class Exporter:
         if comment:
             if comment[0] == "'":
                 self.f.write(comment)
+                if comment[-1] != '\n':
+                    self.f.write('\n')
             else:
                 self.f.write("'")
                 self.f.write(comment)
-- 
2.43.0


From bb2287a9e063b33764557cc02ef59d590708fa28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:13 +0000
Subject: [PATCH 42/63] fix: clear the declaration planes of the dlshogi
 features

---
 src/cshogi.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cshogi.h b/src/cshogi.h
index a7bf59f..bc0aa9a 100644
--- a/src/cshogi.h
+++ b/src/cshogi.h
@@ -367,7 +367,7 @@ public:
         float(* const features2_hand)[ColorNum][MAX_PIECES_IN_HAND_SUM][SquareNum] = reinterpret_cast<float(* const)[ColorNum][MAX_PIECES_IN_HAND_SUM][SquareNum]>(mem2);
 
         std::fill_n((float*)features1, sizeof(features1_t) / sizeof(float), 0);
-        std::fill_n((float*)features2, sizeof(features2_t) / sizeof(float), 0);
+        std::fill_n((float*)features2, __dlshogi_get_features2_num() * (int)SquareNum, 0);
 
         const Bitboard occupied_bb = pos.occupiedBB();
 
-- 
2.43.0


From 507c6b382dd55fa4d3d484b5765cd28e6f310cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:14 +0000
Subject: [PATCH 43/63] fix: leave the board alone in to_bod after a pass

---
 cshogi/_cshogi.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cshogi/_cshogi.pyx b/cshogi/_cshogi.pyx
index 2ba373d..ced9c4e 100644
--- a/cshogi/_cshogi.pyx
+++ b/cshogi/_cshogi.pyx
@@ -1102,7 +1102,8 @@ cdef class Board:
         """
         import cshogi.KIF
         history = self.history
-        if len(history) > 0:
+        # a pass is not a move that can be named
+        if len(history) > 0 and move_to(history[-1]) != move_from(history[-1]):
             move = self.pop()
             move_str = '\n手数＝' + str(self.move_number) + '　' + cshogi.KIF.move_to_bod(move, self) + '　まで'
             self.push(move)
-- 
2.43.0


From d83c670c9b20984b6b6bb96756537b85d1d62fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:10 +0000
Subject: [PATCH 44/63] fix: read KI2 lines with more than one move

---
 cshogi/KI2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cshogi/KI2.py b/cshogi/KI2.py
index 0f54276..bbd2f8a 100644
--- a/cshogi/KI2.py
+++ b/cshogi/KI2.py
@@ -157,7 +157,7 @@ class Parser:
                 moves.append(move)
                 if board.is_legal(move):
                     board.push(move)
-                pos = m.end()
+                pos += m.end()
             else:
                 break
         return moves
-- 
2.43.0


From 26e387a3690b4ae813b14b7627c0e3540d1269db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:10 +0000
Subject: [PATCH 45/63] fix: decode the comments of a CSA record like its names

---
 cshogi/_cshogi.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cshogi/_cshogi.pyx b/cshogi/_cshogi.pyx
index ced9c4e..d5e38f0 100644
--- a/cshogi/_cshogi.pyx
+++ b/cshogi/_cshogi.pyx
@@ -1598,7 +1598,7 @@ cdef class Parser:
         :return: The list of comments for each move of the game.
         :rtype: list
         """
-        return [comment.decode('ascii') for comment in self.__parser.comments]
+        return [comment.decode('utf-8') for comment in self.__parser.comments]
 
     @property
     def win(self):
-- 
2.43.0


From 023aa2d1ad75d510d58be1afb336d31760509cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:10 +0000
Subject: [PATCH 46/63] fix: do not read variations as moves of the game

---
 cshogi/KI2.py | 3 +++
 cshogi/KIF.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/cshogi/KI2.py b/cshogi/KI2.py
index bbd2f8a..4c3d45f 100644
--- a/cshogi/KI2.py
+++ b/cshogi/KI2.py
@@ -199,6 +199,9 @@ class Parser:
             elif '：' in line:
                 (key, value) = line.split('：', 1)
                 value = value.rstrip('　')
+                if key == '変化':
+                    # 変化には対応していない
+                    break
                 if key == '開始日時':
                     try:
                         starttime = datetime.strptime(value, '%Y/%m/%d %H:%M:%S')
diff --git a/cshogi/KIF.py b/cshogi/KIF.py
index 6032bc9..eb39308 100755
--- a/cshogi/KIF.py
+++ b/cshogi/KIF.py
@@ -248,6 +248,9 @@ class Parser:
             elif '：' in line:
                 (key, value) = line.split('：', 1)
                 value = value.rstrip('　')
+                if key == '変化':
+                    # 変化には対応していない
+                    break
                 if key == '開始日時':
                     try:
                         starttime = datetime.strptime(value, '%Y/%m/%d %H:%M:%S')
-- 
2.43.0


From 5c6926fb13aca09afd6751afc71f3980a603a7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:10 +0000
Subject: [PATCH 47/63] fix: read a KIF diagram without moves

---
 cshogi/KIF.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cshogi/KIF.py b/cshogi/KIF.py
index eb39308..e95c58a 100755
--- a/cshogi/KIF.py
+++ b/cshogi/KIF.py
@@ -329,6 +329,9 @@ class Parser:
                         break
             line_no += 1
 
+        if len(board_lines) == 9 and len(moves) == 0:
+            sfen = Parser.parse_bod(board_lines, pieces_in_hand, turn)
+
         parser = Parser()
         parser.starttime = starttime
         parser.names = names
-- 
2.43.0


From effada0ef8701f44b579e3b37aa6bd985877dc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:39 +0000
Subject: [PATCH 48/63] fix: print the draw ratio of a match in percent

---
 cshogi/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cshogi/cli.py b/cshogi/cli.py
index be5db1b..ee07c1d 100644
--- a/cshogi/cli.py
+++ b/cshogi/cli.py
@@ -544,7 +544,7 @@ def main(engine1: str, engine2: str, options1: Dict = {}, options2: Dict = {}, n
                 except ValueError:
                     error_margin = math.nan
                 print('Elo difference: {:.1f} +/- {:.1f}, LOS: {:.1f} %, DrawRatio: {:.1f} %'.format(
-                    elo.diff(), error_margin, elo.los(), elo.draw_ratio()))
+                    elo.diff(), error_margin, elo.los(), elo.draw_ratio() * 100))
 
         # CSA
         if csa:
-- 
2.43.0


From 9d0135601cc4b589deaac9dabebff54cada404d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:54 +0000
Subject: [PATCH 49/63] fix: show names and variations on the page as they are

---
 cshogi/web/templates/board.html | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cshogi/web/templates/board.html b/cshogi/web/templates/board.html
index 28f1739..48a608c 100644
--- a/cshogi/web/templates/board.html
+++ b/cshogi/web/templates/board.html
@@ -9,8 +9,8 @@
     <script src="https://cdnjs.cloudflare.com/ajax/libs/jquery-confirm/3.3.2/jquery-confirm.min.js"></script>
     <script src="{{url_for('static', filename='board.js')}}"></script>
     <script>
-        let names = ["{{names[0]}}", "{{names[1]}}"];
-        let moves = [{% for move in moves %}{number:{{move['number']}},kif_move:"{{move['kif_move']}}",time:{{move['time']}},move:{{move['move']}},eval:{{move['eval']}},pv:"{{move['pv']}}"},{% endfor %}];
+        let names = {{names|list|tojson}};
+        let moves = {{moves|list|tojson}};
         let isMatch = {{is_match}};
         let autoupdate = {{autoupdate}};
         let human = "{{human}}";
@@ -55,7 +55,7 @@
             }
             comments[0].removeClass('text-black-50')
             comments[0].addClass('text-body')
-            comments[0].html("<td>" + eval + "</td><td>" + pv + "</td>");
+            comments[0].empty().append($("<td>").text(eval), $("<td>").text(pv));
 
             eval = '';
             pv = '';
@@ -66,7 +66,7 @@
             }
             comments[1].removeClass('text-body')
             comments[1].addClass('text-black-50')
-            comments[1].html("<td>" + eval + "</td><td>" + pv + "</td>");
+            comments[1].empty().append($("<td>").text(eval), $("<td>").text(pv));
         }
 
         function drawEvalGraph() {
@@ -155,7 +155,7 @@
 
         function updateNames() {
             if (names[0] != null && names[0] != "None")
-                $("#names").html("▲" + names[0] + " △" + names[1]);
+                $("#names").text("▲" + names[0] + " △" + names[1]);
         }
 
         function updateTableMoves() {
-- 
2.43.0


From acbd5e3c9a7c28c822c2064709512bd6d8018bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:54 +0000
Subject: [PATCH 50/63] fix: replay records that do not begin with the even
 starting position

---
 cshogi/web/app.py               | 13 +++++----
 cshogi/web/static/board.js      | 52 ++++++++++++++++++++++++++++-----
 cshogi/web/templates/board.html |  6 ++--
 3 files changed, 55 insertions(+), 16 deletions(-)

diff --git a/cshogi/web/app.py b/cshogi/web/app.py
index b28bb61..cabe4fa 100644
--- a/cshogi/web/app.py
+++ b/cshogi/web/app.py
@@ -1,6 +1,6 @@
 from typing import Dict, Optional
 import math
-from cshogi import Board, CSA, KIF, BLACK, WHITE, opponent, REPETITION_WIN, REPETITION_LOSE
+from cshogi import Board, CSA, KIF, BLACK, WHITE, STARTING_SFEN, opponent, REPETITION_WIN, REPETITION_LOSE
 from cshogi.usi import Engine
 from cshogi.cli import usi_info_to_score, usi_info_to_csa_comment, re_usi_info
 from flask import Flask, render_template, request
@@ -275,6 +275,7 @@ def run(engine1: Optional[str] = None, engine2: Optional[str] = None, options1:
     """
     is_match = 'false'
     auto_update = 'false'
+    sfen = STARTING_SFEN
 
     if engine1 and engine2:
         from multiprocessing import Process, Manager
@@ -291,12 +292,14 @@ def run(engine1: Optional[str] = None, engine2: Optional[str] = None, options1:
         moves = []
         kif = CSA.Parser.parse_file(csa)[0]
         names = kif.names
-        board = Board(sfen=kif.sfen)
+        sfen = kif.sfen
+        board = Board(sfen=sfen)
         for i, (move, prev_move, time, comment) in enumerate(zip(kif.moves, [None] + kif.moves[:-1], kif.times, kif.comments)):
             comment_items = comment.split(' ')
             eval = 'null'
             pv = []
             assert board.is_legal(move)
+            turn_symbol = TURN_SYMBOLS[board.turn]
             board.push(move)
             if len(comment_items) > 0 and comment_items[0] != '':
                 eval = int(comment_items[0])
@@ -312,7 +315,7 @@ def run(engine1: Optional[str] = None, engine2: Optional[str] = None, options1:
                         break
             moves.append({
                 'number': i + 1,
-                'kif_move': TURN_SYMBOLS[i % 2] + KIF.move_to_kif(move, prev_move),
+                'kif_move': turn_symbol + KIF.move_to_kif(move, prev_move),
                 'time': time,
                 'move': move,
                 'eval': eval,
@@ -320,7 +323,7 @@ def run(engine1: Optional[str] = None, engine2: Optional[str] = None, options1:
                 })
         moves.append({
             'number': len(kif.moves) + 1,
-            'kif_move': TURN_SYMBOLS[len(kif.moves) % 2] + CSA.JAPANESE_END_GAMES.get(kif.endgame, '中断'),
+            'kif_move': TURN_SYMBOLS[board.turn] + CSA.JAPANESE_END_GAMES.get(kif.endgame, '中断'),
             'time': 0,
             'move': 0,
             'eval': 'null',
@@ -339,7 +342,7 @@ def run(engine1: Optional[str] = None, engine2: Optional[str] = None, options1:
                 autoupdate = request.args.get('autoupdate', default=auto_update)
                 if humans[len(current_moves) % 2]:
                     human = 'black' if len(current_moves) % 2 == 0 else 'white'
-        return render_template('board.html', names=names, moves=current_moves, is_match=is_match, autoupdate=autoupdate, human=human)
+        return render_template('board.html', names=names, sfen=sfen, moves=current_moves, is_match=is_match, autoupdate=autoupdate, human=human)
 
     @app.route("/update")
     def update():
diff --git a/cshogi/web/static/board.js b/cshogi/web/static/board.js
index 7bad3de..630276b 100644
--- a/cshogi/web/static/board.js
+++ b/cshogi/web/static/board.js
@@ -63,6 +63,7 @@ const HBishop = 5;
 const HRook = 6;
 
 const PieceTypeToHandPieceTable = [null, HPawn, HLance, HKnight, HSilver, HBishop, HRook, HGold, null, HPawn, HLance, HKnight, HSilver, HBishop, HRook, HGold];
+const USI_PIECES = [null, "P", "L", "N", "S", "B", "R", "G", "K"];
 const UsiRankChar = ['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i'];
 
 function to_usi(file, rank) {
@@ -70,15 +71,21 @@ function to_usi(file, rank) {
 }
 
 class Board {
-	constructor() {
+	constructor(sfen=null) {
+		this.sfen = sfen;
 		this.board = new Array(81);
 		this.pieces_in_hand = [new Array(7), new Array(7)];
-		this.move_number = 0;
+		this.first_turn = BLACK;
+		this.turn = BLACK;
 		this.lastmove = null;
 		this.reset();
 	}
 
 	reset() {
+		if (this.sfen != null) {
+			this.set_sfen(this.sfen);
+			return;
+		}
 		this.board.fill(Empty);
 		this.board[0] = WLance;
 		this.board[2] = WPawn;
@@ -124,7 +131,36 @@ class Board {
 		this.pieces_in_hand[0].fill(0);
 		this.pieces_in_hand[1].fill(0);
 
-		this.move_number = 0;
+		this.first_turn = BLACK;
+		this.turn = BLACK;
+		this.lastmove = null;
+	}
+
+	set_sfen(sfen) {
+		const [board, turn, hand] = sfen.split(" ");
+		this.board.fill(Empty);
+		this.pieces_in_hand[0].fill(0);
+		this.pieces_in_hand[1].fill(0);
+
+		board.split("/").forEach((row, rank) => {
+			let file = 8;
+			for (const [, empties, promoted, usi] of row.matchAll(/(\d)|(\+?)([A-Za-z])/g)) {
+				if (empties) {
+					file -= Number(empties);
+					continue;
+				}
+				const pieceType = USI_PIECES.indexOf(usi.toUpperCase());
+				this.board[file * 9 + rank] = pieceType + (usi == usi.toUpperCase() ? 0 : 16) + (promoted ? Promoted : 0);
+				file--;
+			}
+		});
+		for (const [, num, usi] of hand.matchAll(/(\d*)([A-Za-z])/g)) {
+			const c = usi == usi.toUpperCase() ? BLACK : WHITE;
+			this.pieces_in_hand[c][PieceTypeToHandPieceTable[USI_PIECES.indexOf(usi.toUpperCase())]] = num ? Number(num) : 1;
+		}
+
+		this.first_turn = turn == "b" ? BLACK : WHITE;
+		this.turn = this.first_turn;
 		this.lastmove = null;
 	}
 
@@ -138,17 +174,17 @@ class Board {
 			const capturePieceType = (m >> 20) & 0b1111;
 
 			this.board[from_sq] = Empty;
-			this.board[to_sq] = pieceType + 16 * (this.move_number % 2) + Promoted * promote;
+			this.board[to_sq] = pieceType + 16 * this.turn + Promoted * promote;
 			if (capturePieceType > 0) {
-				this.pieces_in_hand[this.move_number % 2][PieceTypeToHandPieceTable[capturePieceType]]++;
+				this.pieces_in_hand[this.turn][PieceTypeToHandPieceTable[capturePieceType]]++;
 			}
 		}
 		else {
 			const pt = from_sq - 80;
-			this.board[to_sq] = pt + 16 * (this.move_number % 2);
-			this.pieces_in_hand[this.move_number % 2][PieceTypeToHandPieceTable[pt]]--;
+			this.board[to_sq] = pt + 16 * this.turn;
+			this.pieces_in_hand[this.turn][PieceTypeToHandPieceTable[pt]]--;
 		}
-		this.move_number++;
+		this.turn = 1 - this.turn;
 		this.lastmove = m;
 	}
 
diff --git a/cshogi/web/templates/board.html b/cshogi/web/templates/board.html
index 48a608c..463f441 100644
--- a/cshogi/web/templates/board.html
+++ b/cshogi/web/templates/board.html
@@ -14,7 +14,7 @@
         let isMatch = {{is_match}};
         let autoupdate = {{autoupdate}};
         let human = "{{human}}";
-        let board = new Board();
+        let board = new Board({{sfen|tojson}});
 
         let current = 0;
         function selectMoveNumber(number) {
@@ -44,7 +44,7 @@
             for (let i = 0; i < len; i++)
                 board.move(moves[i]['move']);
             $("#board").html(board.to_svg(1.5, names[1] == 'Human'));
-            comments = len % 2 == 0 ? [$("#white-comment"), $("#black-comment")] : [$("#black-comment"), $("#white-comment")];
+            comments = board.turn == BLACK ? [$("#white-comment"), $("#black-comment")] : [$("#black-comment"), $("#white-comment")];
 
             let eval = '';
             let pv = '';
@@ -133,7 +133,7 @@
 
             ctx.lineWidth = 2.5;
             for (let c = 1; c <= 2; c++) {
-                ctx.strokeStyle = c == 1 ? "black" : "white";
+                ctx.strokeStyle = (c == 1) == (board.first_turn == BLACK) ? "black" : "white";
                 ctx.beginPath();
                 let needMove = true;
                 for (let i = c; i < moves.length; i += 2) {
-- 
2.43.0


From 0c436e1e498bf55e10433772681ee0831b1086ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:31 +0000
Subject: [PATCH 51/63] fix: let the page go back to a game without moves

---
 cshogi/web/templates/board.html | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cshogi/web/templates/board.html b/cshogi/web/templates/board.html
index 463f441..3c2a333 100644
--- a/cshogi/web/templates/board.html
+++ b/cshogi/web/templates/board.html
@@ -33,6 +33,9 @@
                 current = number;
                 $("#move-number").val(current);
                 updateBoard(current);
+            } else {
+                current = 0;
+                $("#move-number").val(current);
             }
         }
 
-- 
2.43.0


From 58faf2039fa382c5380094ed5c8541e0e0a77b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:54 +0000
Subject: [PATCH 52/63] fix: quit an engine that died with a long command still
 unsent

A command longer than the output buffer that could not be delivered stays in
the buffer, so that already the write of 'quit' raises BrokenPipeError; quit()
caught the error only from the flush.
---
 cshogi/usi/Engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cshogi/usi/Engine.py b/cshogi/usi/Engine.py
index 99b0136..0b60397 100644
--- a/cshogi/usi/Engine.py
+++ b/cshogi/usi/Engine.py
@@ -456,8 +456,8 @@ class Engine:
         cmd = 'quit'
         if listener:
             listener(cmd)
-        self.proc.stdin.write(cmd.encode('ascii') + b'\n')
         try:
+            self.proc.stdin.write(cmd.encode('ascii') + b'\n')
             self.proc.stdin.flush()
         except BrokenPipeError:
             pass
-- 
2.43.0


From efad0e3f81ada27973ec7c604b717422fae0d921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:13 +0000
Subject: [PATCH 53/63] fix: name the piece that recaptures in a board diagram
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

move_to_ki2 pads 同 with a space only when nothing follows the piece, so for
moves such as 同銀成 or 同金右 move_to_bod cut off the name of the piece.
---
 cshogi/KIF.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cshogi/KIF.py b/cshogi/KIF.py
index e95c58a..d05c7a8 100755
--- a/cshogi/KIF.py
+++ b/cshogi/KIF.py
@@ -429,7 +429,7 @@ def move_to_bod(move: int, board: Board) -> str:
     move_str = cshogi.KI2.move_to_ki2(move, board)
     if move_str[1] == '同':
         to_sq = cshogi.move_to(move)
-        return move_str[0] + KIFU_TO_SQUARE_NAMES[to_sq] + '同' + move_str[3:]
+        return move_str[0] + KIFU_TO_SQUARE_NAMES[to_sq] + '同' + move_str[2:].lstrip('　')
     else:
         return move_str
 
-- 
2.43.0


From d41a1f803618e18edf1c47a773acbe004ac9a845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:07 +0000
Subject: [PATCH 54/63] fix: keep KI2 comments of several lines with their move

Every comment line was taken for the comment of one more move, so that the
comments of all later moves moved on by one.
---
 cshogi/KI2.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cshogi/KI2.py b/cshogi/KI2.py
index 4c3d45f..340b97e 100644
--- a/cshogi/KI2.py
+++ b/cshogi/KI2.py
@@ -191,9 +191,13 @@ class Parser:
                     if len(moves) - len(comments) > 1:
                         comments.extend([None]*(len(moves) - len(comments) - 1))
                     if line[:2] == "**":
-                        comments.append(line[2:])
+                        comment = line[2:]
                     else:
-                        comments.append(line[1:])
+                        comment = line[1:]
+                    if len(comments) == len(moves):
+                        comments[-1] += "\n" + comment
+                    else:
+                        comments.append(comment)
                 else:
                     header_comments.append(line[1:])
             elif '：' in line:
-- 
2.43.0


From 621e5d9e508b9edc17d995eb83f14fc358fea282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:07 +0000
Subject: [PATCH 55/63] fix: number of moves of a KI2 game that ends with a
 foul

The exporter counts its moves on the board; move_number always stays 1.
---
 cshogi/KI2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cshogi/KI2.py b/cshogi/KI2.py
index 340b97e..90282d9 100644
--- a/cshogi/KI2.py
+++ b/cshogi/KI2.py
@@ -612,4 +612,4 @@ class Exporter:
         elif reason == '%+ILLEGAL_ACTION' or reason == '%-ILLEGAL_ACTION':
             self.kifu.write('まで{}手で{}の反則勝ち\n'.format(self.board.move_number - 1, '先手' if self.board.turn == cshogi.WHITE else '後手'))
         elif reason == '%ILLEGAL_MOVE':
-            self.kifu.write('まで{}手で{}の反則負け\n'.format(self.move_number - 1, '先手' if self.board.turn == cshogi.WHITE else '後手'))
+            self.kifu.write('まで{}手で{}の反則負け\n'.format(self.board.move_number - 1, '先手' if self.board.turn == cshogi.WHITE else '後手'))
-- 
2.43.0


From 5d1ae9fb3c5acaa515aae33ad221f6483ec58801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:19 +0000
Subject: [PATCH 56/63] fix: read KI2 records that start from a board diagram

As in KIF, the diagram, the pieces in hand and the side to move make the
starting position; they were ignored and the moves read from the even start.
---
 cshogi/KI2.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/cshogi/KI2.py b/cshogi/KI2.py
index 90282d9..013da50 100644
--- a/cshogi/KI2.py
+++ b/cshogi/KI2.py
@@ -181,6 +181,9 @@ class Parser:
         comments = []
         win = None
         endgame = ''
+        pieces_in_hand = [{}, {}]
+        board_lines = []
+        turn = cshogi.BLACK
         kif_str = kif_str.replace('\r\n', '\n').replace('\r', '\n')
         board = Board()
         for line in kif_str.split('\n'):
@@ -221,6 +224,10 @@ class Parser:
                 elif key == '後手' or key == '上手': # gote or uwate
                     # White's name
                     names[cshogi.WHITE] = value
+                elif key == '先手の持駒' or key == '下手の持駒': # sente or shitate's pieces in hand
+                    pieces_in_hand[cshogi.BLACK] = Parser.parse_pieces_in_hand(value)
+                elif key == '後手の持駒' or key == '上手の持駒': # gote or uwate's pieces in hand
+                    pieces_in_hand[cshogi.WHITE] = Parser.parse_pieces_in_hand(value)
                 elif key == '手合割': # teai wari
                     sfen = Parser.HANDYCAP_SFENS[value]
                     if sfen is None:
@@ -228,7 +235,14 @@ class Parser:
                     board.set_sfen(sfen)
                 else:
                     var_info[key] = value
+            elif line[0] == '|':
+                board_lines.append(line)
+            elif line == '後手番' or line == '上手番':
+                turn = cshogi.WHITE
             else:
+                if len(board_lines) == 9 and len(moves) == 0:
+                    sfen = KIF.Parser.parse_bod(board_lines, pieces_in_hand, turn)
+                    board.set_sfen(sfen)
                 m = Parser.RESULT_RE.match(line)
                 if m:
                     win_side_str = m.group(3)
@@ -265,6 +279,9 @@ class Parser:
         if len(moves) - len(comments) > 0:
             comments.extend([None]*(len(moves) - len(comments)))
 
+        if len(board_lines) == 9 and len(moves) == 0:
+            sfen = KIF.Parser.parse_bod(board_lines, pieces_in_hand, turn)
+
         parser = Parser()
         parser.starttime = starttime
         parser.names = names
-- 
2.43.0


From e2d0817772821c1373d95a40af94d7cbd7a41793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:15 +0000
Subject: [PATCH 57/63] fix: winner of a game that ends with a foul in KIF and
 KI2
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The row 反則勝ち/反則負け speaks of the side to move, as %ILLEGAL_MOVE does, but
the result line named the other side; and %+ILLEGAL_ACTION is a foul of Black,
which White wins, as the CSA parser and the match program have it.
---
 cshogi/KI2.py | 8 ++++----
 cshogi/KIF.py | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/cshogi/KI2.py b/cshogi/KI2.py
index 013da50..095ab55 100644
--- a/cshogi/KI2.py
+++ b/cshogi/KI2.py
@@ -252,14 +252,14 @@ class Parser:
                             endgame = '%ILLEGAL_MOVE'
                         else:
                             win = BLACK_WIN
-                            endgame = '%+ILLEGAL_ACTION' if m.group(4) == '反則勝ち' else ('%KACHI' if m.group(4) == '入玉勝ち' else '%TORYO')
+                            endgame = '%-ILLEGAL_ACTION' if m.group(4) == '反則勝ち' else ('%KACHI' if m.group(4) == '入玉勝ち' else '%TORYO')
                     elif win_side_str == '後' or win_side_str == '上':
                         if m.group(4) == '反則負け':
                             win = BLACK_WIN
                             endgame = '%ILLEGAL_MOVE'
                         else:
                             win = WHITE_WIN
-                            endgame = '%-ILLEGAL_ACTION' if m.group(4) == '反則勝ち' else ('%KACHI' if m.group(4) == '入玉勝ち' else '%TORYO')
+                            endgame = '%+ILLEGAL_ACTION' if m.group(4) == '反則勝ち' else ('%KACHI' if m.group(4) == '入玉勝ち' else '%TORYO')
                     elif m.group(2) == '持将棋':
                         win = DRAW
                         endgame = '%JISHOGI'
@@ -627,6 +627,6 @@ class Exporter:
         elif reason == '%SENNICHITE':
             self.kifu.write('まで{}手で千日手\n'.format(self.board.move_number - 1))
         elif reason == '%+ILLEGAL_ACTION' or reason == '%-ILLEGAL_ACTION':
-            self.kifu.write('まで{}手で{}の反則勝ち\n'.format(self.board.move_number - 1, '先手' if self.board.turn == cshogi.WHITE else '後手'))
+            self.kifu.write('まで{}手で{}の反則勝ち\n'.format(self.board.move_number - 1, '後手' if reason == '%+ILLEGAL_ACTION' else '先手'))
         elif reason == '%ILLEGAL_MOVE':
-            self.kifu.write('まで{}手で{}の反則負け\n'.format(self.board.move_number - 1, '先手' if self.board.turn == cshogi.WHITE else '後手'))
+            self.kifu.write('まで{}手で{}の反則負け\n'.format(self.board.move_number - 1, '先手' if self.board.turn == cshogi.BLACK else '後手'))
diff --git a/cshogi/KIF.py b/cshogi/KIF.py
index d05c7a8..dd366f7 100755
--- a/cshogi/KIF.py
+++ b/cshogi/KIF.py
@@ -307,14 +307,14 @@ class Parser:
                                 endgame = '%ILLEGAL_MOVE'
                             else:
                                 win = BLACK_WIN
-                                endgame = '%+ILLEGAL_ACTION' if m.group(4) == '反則勝ち' else ('%KACHI' if m.group(4) == '入玉勝ち' else '%TORYO')
+                                endgame = '%-ILLEGAL_ACTION' if m.group(4) == '反則勝ち' else ('%KACHI' if m.group(4) == '入玉勝ち' else '%TORYO')
                         elif win_side_str == '後' or win_side_str == '上':
                             if m.group(4) == '反則負け':
                                 win = BLACK_WIN
                                 endgame = '%ILLEGAL_MOVE'
                             else:
                                 win = WHITE_WIN
-                                endgame = '%-ILLEGAL_ACTION' if m.group(4) == '反則勝ち' else ('%KACHI' if m.group(4) == '入玉勝ち' else '%TORYO')
+                                endgame = '%+ILLEGAL_ACTION' if m.group(4) == '反則勝ち' else ('%KACHI' if m.group(4) == '入玉勝ち' else '%TORYO')
                         elif m.group(2) == '持将棋':
                             win = DRAW
                             endgame = '%JISHOGI'
@@ -557,9 +557,9 @@ class Exporter:
         elif reason == 'sennichite':
             self.kifu.write('まで{}手で千日手\n'.format(self.move_number - 1))
         elif reason == 'illegal_win':
-            self.kifu.write('まで{}手で{}の反則勝ち\n'.format(self.move_number - 1, '先手' if self.last_turn() == cshogi.BLACK else '後手'))
+            self.kifu.write('まで{}手で{}の反則勝ち\n'.format(self.move_number - 1, '後手' if self.last_turn() == cshogi.BLACK else '先手'))
         elif reason == 'illegal_lose':
-            self.kifu.write('まで{}手で{}の反則負け\n'.format(self.move_number - 1, '先手' if self.last_turn() == cshogi.BLACK else '後手'))
+            self.kifu.write('まで{}手で{}の反則負け\n'.format(self.move_number - 1, '後手' if self.last_turn() == cshogi.BLACK else '先手'))
 
     def info(self, info):
         """Record additional information related to the game.
-- 
2.43.0


From 3523545895ae9e855b4f69945eca94b47ed445ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:22 +0000
Subject: [PATCH 58/63] fix: understand score bounds and bare variations in
 info lines

---
 cshogi/usi/Engine.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cshogi/usi/Engine.py b/cshogi/usi/Engine.py
index 0b60397..7009793 100644
--- a/cshogi/usi/Engine.py
+++ b/cshogi/usi/Engine.py
@@ -32,7 +32,7 @@ class InfoListener:
 
     @staticmethod
     def _split_info(m: re.Match) -> Dict:
-        items = m[1].strip().split(' ')
+        items = m[1].split()
         info_dict = {}
         while items:
             name = items.pop(0)
@@ -45,6 +45,9 @@ class InfoListener:
             elif name == 'score':
                 name = items.pop(0)
                 info_dict['score'] = name
+            elif name in ('lowerbound', 'upperbound'):
+                info_dict[name] = True
+                continue
 
             value = items.pop(0)
             try:
-- 
2.43.0


From 5e24b12fd3c99bceaf9cc945fbb0801fdabd2d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:39 +0000
Subject: [PATCH 59/63] fix: accept engine output in UTF-8 or Shift-JIS at any
 point

---
 cshogi/usi/Engine.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/cshogi/usi/Engine.py b/cshogi/usi/Engine.py
index 7009793..b610de2 100644
--- a/cshogi/usi/Engine.py
+++ b/cshogi/usi/Engine.py
@@ -5,6 +5,14 @@ import locale
 import re
 
 
+def decode_line(line: bytes) -> str:
+    # engines write in the encoding of the system or in Shift-JIS
+    try:
+        return line.decode(locale.getpreferredencoding())
+    except UnicodeDecodeError:
+        return line.decode('shift-jis', errors='replace')
+
+
 class InfoListener:
     """Listener class to obtain the content of the info command returned by the USI engine.
 
@@ -222,7 +230,7 @@ class Engine:
                 raise EOFError()
             line = line.strip()
             if line[:7] == b'id name':
-                self.name = line[8:].decode('ascii')
+                self.name = decode_line(line[8:])
             elif line == b'usiok':
                 break
         if listener:
@@ -247,7 +255,7 @@ class Engine:
             line = self.proc.stdout.readline()
             if not line.endswith(b'\n'):
                 raise EOFError()
-            line = line.strip().decode(locale.getpreferredencoding())
+            line = decode_line(line.strip())
             if listener:
                 listener(line)
             if line == 'usiok':
@@ -286,7 +294,7 @@ class Engine:
             line = self.proc.stdout.readline()
             if not line.endswith(b'\n'):
                 raise EOFError()
-            line = line.strip().decode('shift-jis')
+            line = decode_line(line.strip())
             if listener:
                 listener(line)
             if line == 'readyok':
@@ -372,7 +380,7 @@ class Engine:
             line = self.proc.stdout.readline()
             if not line.endswith(b'\n'):
                 raise EOFError()
-            line = line.strip().decode(locale.getpreferredencoding())
+            line = decode_line(line.strip())
             if listener:
                 listener(line)
             if line[:8] == 'bestmove':
@@ -404,7 +412,7 @@ class Engine:
             line = self.proc.stdout.readline()
             if not line.endswith(b'\n'):
                 raise EOFError()
-            line = line.strip().decode(locale.getpreferredencoding())
+            line = decode_line(line.strip())
             if listener:
                 listener(line)
             if line[:9] == 'checkmate':
-- 
2.43.0


From 149bcc5ab9ef99d06b569801f3f5963eacfb18a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:54 +0000
Subject: [PATCH 60/63] fix: show records whose comments are no evaluations in
 the browser

---
 cshogi/web/app.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cshogi/web/app.py b/cshogi/web/app.py
index cabe4fa..2e86077 100644
--- a/cshogi/web/app.py
+++ b/cshogi/web/app.py
@@ -301,8 +301,14 @@ def run(engine1: Optional[str] = None, engine2: Optional[str] = None, options1:
             assert board.is_legal(move)
             turn_symbol = TURN_SYMBOLS[board.turn]
             board.push(move)
-            if len(comment_items) > 0 and comment_items[0] != '':
+            if comment_items[0] == '**':
+                # 指し手と同じ行の評価値
+                comment_items.pop(0)
+            try:
                 eval = int(comment_items[0])
+            except (IndexError, ValueError):
+                # 評価値ではないコメント
+                comment_items = []
             if len(comment_items) > 1:
                 board2 = board.copy()
                 for csa in comment_items[1:]:
-- 
2.43.0


From b109c33d487ebf2d40345ed4361de4bb5138b0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:11 +0000
Subject: [PATCH 61/63] fix: read CSA records with CR LF line ends from a
 string or by path

---
 cshogi/_cshogi.pyx | 2 +-
 src/parser.h       | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/cshogi/_cshogi.pyx b/cshogi/_cshogi.pyx
index d5e38f0..63519c4 100644
--- a/cshogi/_cshogi.pyx
+++ b/cshogi/_cshogi.pyx
@@ -1476,7 +1476,7 @@ cdef class Parser:
         """
         parsers = []
         # split multiple matches
-        matches = csa_str.split('\n/\n')
+        matches = csa_str.replace('\r\n', '\n').split('\n/\n')
         for one_csa_str in matches:
             parser = Parser()
             parser.parse_csa_str(one_csa_str)
diff --git a/src/parser.h b/src/parser.h
index 4d5bdc5..b74c14e 100644
--- a/src/parser.h
+++ b/src/parser.h
@@ -145,6 +145,8 @@ namespace parser {
             std::string line;
             while (!is.bad() && !is.eof()) {
                 std::getline(is, line);
+                if (!line.empty() && line.back() == '\r')
+                    line.pop_back();
                 if (line[0] == '\0') {
                 }
                 else if (line[0] == '\'') {
-- 
2.43.0


From c477c1f349a5313bd73e32197c8c6900680161f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:40 +0000
Subject: [PATCH 62/63] fix: report a mate by a discovered check of a promoted
 piece with that piece [S01]

---
 src/position.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/position.cpp b/src/position.cpp
index ed3b2bc..3428198 100644
--- a/src/position.cpp
+++ b/src/position.cpp
@@ -2507,7 +2507,7 @@ silver_drop_end:
                     if (!can_king_escape_cangoto(*this, Them, from, to, bb_attacks, slide)) {
                         if (promo && !(pt & PTPromote) && pt != Gold)
                             return makePromoteMove<Capture>(pt, from, to, *this);
-                        return makeCaptureMove(pt, from, to, *this);
+                        return makeCaptureMove(pieceToPieceType(piece(from)), from, to, *this); // ptは成駒でもGold
                     }
 
                 DC_Silver_NO_PRO:
@@ -2756,7 +2756,7 @@ silver_drop_end:
                         if (canPromote(US, from, to) && !(piece(from) & PTPromote) && pt != Gold)
                             return makePromoteMove<Capture>(pt, from, to, *this);
                         else
-                            return makeCaptureMove(pt, from, to, *this);
+                            return makeCaptureMove(pieceToPieceType(piece(from)), from, to, *this); // ptは成駒でもGold
                     }
 
                 DISCOVER_ATTACK_CONTINUE_Silver:
-- 
2.43.0


From 9c7638609a393c6e22f78133d9bafe73b2511b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:24 +0000
Subject: [PATCH 63/63] hook: let the simulation build bound the table of the
 OSL mate solver

---
 src/osl_dfpn.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/osl_dfpn.cpp b/src/osl_dfpn.cpp
index 3e3640d..a553a0f 100644
--- a/src/osl_dfpn.cpp
+++ b/src/osl_dfpn.cpp
@@ -42,6 +42,10 @@
 #include "mt64bit.hpp"
 #include "usi.hpp"
 
+#ifdef CSHOGI_SIM
+extern "C" int cshogi_sim_point(int site);
+#endif
+
 using ns_dfpn::ProofDisproof;
 
 
@@ -7177,6 +7181,11 @@ struct OslDfPn::Impl {
     }
 
     size_t growth_limit_from_hash(const uint64_t hash_mb) const {
+#ifdef CSHOGI_SIM
+        if (const int entries = cshogi_sim_point(1)) {
+            return static_cast<size_t>(entries);
+        }
+#endif
         const uint64_t reserved_mb = std::max<uint64_t>(1, hash_mb);
         const uint64_t bytes = reserved_mb * 1024ull * 1024ull;
         const uint64_t approx_entry = std::max<uint64_t>(
@@ -7210,6 +7219,9 @@ struct OslDfPn::Impl {
             || table.growth_limit() - table.size() < table.growth_limit() / 8;
         size_t removed = 0;
         if (table_gc_needed) {
+#ifdef CSHOGI_SIM
+            cshogi_sim_point(2);
+#endif
             removed = table.run_gc();
         }
         const bool path_gc_needed = path_table.size() > table.growth_limit();
-- 
2.43.0

