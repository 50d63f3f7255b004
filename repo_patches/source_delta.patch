From ceecf67f7216086bb195d3544d937dfa5e4f27ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:29 +0000
Subject: [PATCH 01/51] fix: compare lists with other values and with shorter
 lists without error

---
 internal/common/type/pair/pair.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/common/type/pair/pair.go b/internal/common/type/pair/pair.go
index 0496334..927dee3 100644
--- a/internal/common/type/pair/pair.go
+++ b/internal/common/type/pair/pair.go
@@ -29,11 +29,11 @@ type pair = T
 
 // Equal returns true if c is a pair with elements that are equal to p's.
 func (p *pair) Equal(c cell.I) bool {
-	if p == Null && c == Null {
-		return true
+	if p == Null || c == Null {
+		return p == c
 	}
 
-	return p.car.Equal(Car(c)) && p.cdr.Equal(Cdr(c))
+	return Is(c) && p.car.Equal(Car(c)) && p.cdr.Equal(Cdr(c))
 }
 
 // Literal returns the literal representation of the pair p.
-- 
2.43.0


From 885e8e32c79fa004929e34297963c1981b02969b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:04 +0000
Subject: [PATCH 02/51] fix: extending a list with itself terminates

---
 internal/common/type/list/list.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/internal/common/type/list/list.go b/internal/common/type/list/list.go
index 7883061..caa2b0e 100644
--- a/internal/common/type/list/list.go
+++ b/internal/common/type/list/list.go
@@ -89,12 +89,11 @@ func Join(lists ...cell.I) cell.I {
 			continue
 		}
 
-		for list != pair.Null {
-			p := pair.Cons(pair.Car(list), pair.Null)
+		// Copy first. The list may share structure with start.
+		for _, e := range Array(list) {
+			p := pair.Cons(e, pair.Null)
 			pair.SetCdr(end, p)
 			end = p
-
-			list = pair.Cdr(list)
 		}
 	}
 
-- 
2.43.0


From d284b21037d1bca8a78638a146e6a8b971c650e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:08 +0000
Subject: [PATCH 03/51] fix: set-head and set-tail cannot change the shared
 empty list

---
 internal/common/type/pair/pair.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/internal/common/type/pair/pair.go b/internal/common/type/pair/pair.go
index 927dee3..a2472ee 100644
--- a/internal/common/type/pair/pair.go
+++ b/internal/common/type/pair/pair.go
@@ -150,13 +150,22 @@ func Cons(h, t cell.I) cell.I {
 // SetCar sets the car/head/first of the pair c to value.
 // If c is not a pair, this function will panic.
 func SetCar(c, value cell.I) {
-	To(c).car = value
+	mutable(c).car = value
 }
 
 // SetCdr sets the cdr/tail/rest of the pair c to value.
 // If c is not a pair, this function will panic.
 func SetCdr(c, value cell.I) {
-	To(c).cdr = value
+	mutable(c).cdr = value
+}
+
+// Every list ends with Null. Changing it would change them all.
+func mutable(c cell.I) *pair {
+	if c == Null {
+		panic("the empty list cannot be changed")
+	}
+
+	return To(c)
 }
 
 // A compiler-checked list of interfaces this type satisfies. Never called.
-- 
2.43.0


From 5ec29552b9f851b81bc89a2dfe8bc6af044e8c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:10 +0000
Subject: [PATCH 04/51] fix: running out of text does not count as a column

---
 internal/reader/lexer/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/reader/lexer/lexer.go b/internal/reader/lexer/lexer.go
index be93aaa..68106f6 100644
--- a/internal/reader/lexer/lexer.go
+++ b/internal/reader/lexer/lexer.go
@@ -112,7 +112,7 @@ func (l *T) accept(r token.Class, w int) {
 		// We fix this when emitting the newline.
 		l.source.Line++
 		l.runes = 1
-	} else {
+	} else if w > 0 {
 		l.runes++
 	}
 
-- 
2.43.0


From a4f7f69d18bae637c15f701a9e3dfb55f09468e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:10 +0000
Subject: [PATCH 05/51] fix: text queued while tokens are pending does not drop
 them

---
 internal/reader/lexer/lexer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/reader/lexer/lexer.go b/internal/reader/lexer/lexer.go
index 68106f6..3a2c14b 100644
--- a/internal/reader/lexer/lexer.go
+++ b/internal/reader/lexer/lexer.go
@@ -141,7 +141,8 @@ func (l *T) escape(escaped, a action) action {
 }
 
 func (l *T) gather() {
-	if len(l.queue) == 0 {
+	// Tokens already scanned must be delivered first.
+	if len(l.queue) == 0 || len(l.tokens) > 0 {
 		return
 	}
 
-- 
2.43.0


From 886f61f493d57c6295942c244a52f45a1829c3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:10 +0000
Subject: [PATCH 06/51] fix: a copy of a lexer does not share its queue

---
 internal/reader/lexer/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/reader/lexer/lexer.go b/internal/reader/lexer/lexer.go
index 3a2c14b..ab2cf7f 100644
--- a/internal/reader/lexer/lexer.go
+++ b/internal/reader/lexer/lexer.go
@@ -54,7 +54,7 @@ func New(label string) *T {
 func (l *T) Copy() *T {
 	c := *l
 
-	copy(c.queue, l.queue)
+	c.queue = append([]string(nil), l.queue...)
 
 	c.tokens = make(chan *token.T, qsize)
 
-- 
2.43.0


From 0a67ecab07e8d480e3d22860385a2d86e462b0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:30 +0000
Subject: [PATCH 07/51] fix: an operator without its operand is an error

---
 internal/reader/parser/parser.go | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/internal/reader/parser/parser.go b/internal/reader/parser/parser.go
index 966dfb8..7116590 100644
--- a/internal/reader/parser/parser.go
+++ b/internal/reader/parser/parser.go
@@ -77,7 +77,12 @@ func (p *T) Parse() (err error) {
 			continue
 		}
 
-		p.emit(p.possibleBackground())
+		c := p.possibleBackground()
+		if c == nil && (p.peek() == nil || p.peek().Is('\n')) {
+			continue
+		}
+
+		p.emit(p.check(c))
 	}
 
 	return nil
@@ -160,9 +165,9 @@ func (p *T) possibleBackground() cell.I {
 
 	t := p.peek()
 	if t.Is(token.Background) {
-		p.consume()
+		c = list.New(sym.Token(t), p.check(c))
 
-		c = list.New(sym.Token(t), c)
+		p.consume()
 	}
 
 	return c
@@ -174,11 +179,11 @@ func (p *T) command() cell.I {
 
 	t := p.peek()
 	if t.Is(token.Orf) {
-		c = list.New(sym.Token(t), c)
+		c = list.New(sym.Token(t), p.check(c))
 
 		for p.peek().Is(token.Orf) {
 			p.consume()
-			c = list.Append(c, p.possibleAndf())
+			c = list.Append(c, p.check(p.possibleAndf()))
 		}
 	}
 
@@ -191,11 +196,11 @@ func (p *T) possibleAndf() cell.I {
 
 	t := p.peek()
 	if t.Is(token.Andf) {
-		c = list.New(sym.Token(t), c)
+		c = list.New(sym.Token(t), p.check(c))
 
 		for p.peek().Is(token.Andf) {
 			p.consume()
-			c = list.Append(c, p.possiblePipeline())
+			c = list.Append(c, p.check(p.possiblePipeline()))
 		}
 	}
 
@@ -207,9 +212,11 @@ func (p *T) possiblePipeline() cell.I {
 	c := p.possibleSequence()
 
 	if p.peek().Is(token.Pipe) {
+		p.check(c)
+
 		s := sym.Token(p.consume())
 
-		c = pair.Cons(p.possiblePipeline(), c)
+		c = pair.Cons(p.check(p.possiblePipeline()), c)
 		c = pair.Cons(s, c)
 	}
 
@@ -238,6 +245,8 @@ func (p *T) possibleRedirection() cell.I {
 	c := p.possibleSubstitution()
 
 	for p.peek().Is(token.Redirect) {
+		p.check(c)
+
 		s := sym.Token(p.consume())
 		c = list.New(s, p.check(p.implicitJoin(p.element())), c)
 
@@ -261,7 +270,7 @@ func (p *T) possibleSubstitution() cell.I {
 
 		for p.peek().Is(token.Substitute) {
 			s := sym.Token(p.consume())
-			l := pair.Cons(s, p.element())
+			l := pair.Cons(s, p.check(p.element()))
 			c = list.Append(c, l)
 
 			if !p.peek().Is(token.Substitute) {
@@ -291,7 +300,7 @@ func (p *T) braces() (c cell.I) {
 			c = p.braces()
 			p.expect('}')
 		default:
-			c = p.implicitJoin(p.element())
+			c = p.check(p.implicitJoin(p.element()))
 			c = pair.Cons(c, pair.Null)
 
 			p.expect('}')
-- 
2.43.0


From db040f362d2fca512824b0da87540baab37a5a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:30 +0000
Subject: [PATCH 08/51] fix: empty parts of a sequence do not hide the commands
 after them

---
 internal/reader/parser/parser.go | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/internal/reader/parser/parser.go b/internal/reader/parser/parser.go
index 7116590..c49552c 100644
--- a/internal/reader/parser/parser.go
+++ b/internal/reader/parser/parser.go
@@ -228,13 +228,26 @@ func (p *T) possibleSequence() cell.I {
 	c := p.possibleRedirection()
 
 	if p.peek().Is(';') {
-		c = list.New(sym.New("block"), c)
+		l := pair.Null
+
+		if c != nil {
+			l = list.New(c)
+		}
 
 		for p.peek().Is(';') {
 			p.consume()
 
-			c = list.Append(c, p.possibleRedirection())
+			c = p.possibleRedirection()
+			if c != nil {
+				l = list.Append(l, c)
+			}
 		}
+
+		if l == pair.Null {
+			return nil
+		}
+
+		c = pair.Cons(sym.New("block"), l)
 	}
 
 	return c
@@ -422,7 +435,12 @@ func (p *T) block() cell.I {
 			continue
 		}
 
-		c = list.Append(c, p.check(p.possibleBackground()))
+		n := p.possibleBackground()
+		if n == nil && p.peek().Is('\n', '}') {
+			continue
+		}
+
+		c = list.Append(c, p.check(n))
 	}
 
 	return c
-- 
2.43.0


From 2ed8ba9628038dfd4034326268cfacfd1ee3a29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:55 +0000
Subject: [PATCH 09/51] fix: what follows a complete command on its line is an
 error

---
 internal/reader/parser/parser.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/reader/parser/parser.go b/internal/reader/parser/parser.go
index c49552c..ad9976f 100644
--- a/internal/reader/parser/parser.go
+++ b/internal/reader/parser/parser.go
@@ -168,6 +168,8 @@ func (p *T) possibleBackground() cell.I {
 		c = list.New(sym.Token(t), p.check(c))
 
 		p.consume()
+	} else if c != nil && t != nil && !t.Is('\n', '}') {
+		p.check(nil)
 	}
 
 	return c
-- 
2.43.0


From 2eef158a2916222d305b2f28a027c210d8bbb4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:59 +0000
Subject: [PATCH 10/51] fix: several commands completed by one piece of text
 are all kept

---
 internal/reader/reader.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/internal/reader/reader.go b/internal/reader/reader.go
index c1bfab7..cb240cb 100644
--- a/internal/reader/reader.go
+++ b/internal/reader/reader.go
@@ -3,6 +3,8 @@ package reader
 import (
 	"github.com/michaelmacinnis/oh/internal/common/interface/cell"
 	"github.com/michaelmacinnis/oh/internal/common/struct/token"
+	"github.com/michaelmacinnis/oh/internal/common/type/list"
+	"github.com/michaelmacinnis/oh/internal/common/type/sym"
 	"github.com/michaelmacinnis/oh/internal/reader/lexer"
 	"github.com/michaelmacinnis/oh/internal/reader/parser"
 )
@@ -29,14 +31,25 @@ func New(name string) *T {
 
 	var v cell.I
 
+	several := false
+
 	r.p = parser.New(func(c cell.I) {
-		v = c
+		switch {
+		case v == nil:
+			v = c
+		case several:
+			v = list.Append(v, c)
+		default:
+			v = list.New(sym.New("block"), v, c)
+			several = true
+		}
 	}, func() *token.T {
 		t := r.s.Token()
 
 		for t == nil {
 			r.o <- v
 
+			several = false
 			v = nil
 
 			if !r.next() {
-- 
2.43.0


From e79329a7d45b2575ab9390be4706f6d6f61cdf1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:02 +0000
Subject: [PATCH 11/51] fix: (|) is not an empty list

---
 internal/reader/parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/reader/parser/parser.go b/internal/reader/parser/parser.go
index ad9976f..316fcf6 100644
--- a/internal/reader/parser/parser.go
+++ b/internal/reader/parser/parser.go
@@ -553,7 +553,7 @@ func (p *T) value() cell.I {
 	c := p.command()
 	if c == nil {
 		t := p.peek()
-		if t.Is(')') {
+		if t.Is(')') && !meta {
 			p.consume()
 
 			return pair.Null
-- 
2.43.0


From 5e951cbc26ad9eafda9d65592edcd763800ce972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:17 +0000
Subject: [PATCH 12/51] fix: completing after & does not report the words of
 the command before it

---
 internal/reader/parser/parser.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/reader/parser/parser.go b/internal/reader/parser/parser.go
index 316fcf6..4343a9b 100644
--- a/internal/reader/parser/parser.go
+++ b/internal/reader/parser/parser.go
@@ -168,6 +168,8 @@ func (p *T) possibleBackground() cell.I {
 		c = list.New(sym.Token(t), p.check(c))
 
 		p.consume()
+
+		p.current = pair.Null
 	} else if c != nil && t != nil && !t.Is('\n', '}') {
 		p.check(nil)
 	}
-- 
2.43.0


From 5657424053d5a633c5f8dfb222a1a4fd77648b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:24 +0000
Subject: [PATCH 13/51] fix: completing at the start of a block does not report
 the words before the block

---
 internal/reader/parser/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/reader/parser/parser.go b/internal/reader/parser/parser.go
index 4343a9b..53a5e69 100644
--- a/internal/reader/parser/parser.go
+++ b/internal/reader/parser/parser.go
@@ -432,6 +432,9 @@ func (p *T) subStatement() cell.I {
 func (p *T) block() cell.I {
 	c := pair.Null
 
+	// Commands in the block are separate from the one the block is part of.
+	p.current = pair.Null
+
 	for !p.peek().Is('}') {
 		if p.peek().Is('\n') {
 			p.consume()
-- 
2.43.0


From b1f42aabd5ea6d3622614e214e130d28f20bc221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:16 +0000
Subject: [PATCH 14/51] fix: evaluating object or catch does not grow its own
 code

---
 internal/engine/boot/boot.oh | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/internal/engine/boot/boot.oh b/internal/engine/boot/boot.oh
index 5b61670..4cb5380 100644
--- a/internal/engine/boot/boot.oh
+++ b/internal/engine/boot/boot.oh
@@ -131,8 +131,10 @@ define quote: syntax (v) {
 }
 
 define object: syntax ((body)) e {
-    body append (quote ((method self () = (return (resolve self)))))
-    e eval (cons block $body)
+    e eval (list block {
+        splice $body
+        quote ((method self () = (return (resolve self))))
+    })
 }
 
 # TODO: Add optional map literal argument.
@@ -539,7 +541,7 @@ define catch: syntax (name (clause)) e {
     if (null? $clause) {
         set body: list body
     } else {
-        set body: clause append $body
+        set body: list (splice $clause) $body
     }
 
     define defn: list method (list $name throw) =
-- 
2.43.0


From f6e5f8f8fa30acdefec7eb9f17ca8aadb4294790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:15 +0000
Subject: [PATCH 15/51] fix: an error raised while a handler runs goes to the
 next handler

---
 internal/engine/boot/boot.oh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/engine/boot/boot.oh b/internal/engine/boot/boot.oh
index 4cb5380..c19c6ec 100644
--- a/internal/engine/boot/boot.oh
+++ b/internal/engine/boot/boot.oh
@@ -545,6 +545,7 @@ define catch: syntax (name (clause)) e {
     }
 
     define defn: list method (list $name throw) =
+    defn append (list export throw (list resolve throw))
     defn extend $body
 
     define handler: e eval $defn
-- 
2.43.0


From 0276d386b756035c5d16038fa1fda95f2a27146b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:35 +0000
Subject: [PATCH 16/51] fix: exists finds files named by strings

---
 internal/engine/task/action.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/engine/task/action.go b/internal/engine/task/action.go
index 3a6f1ee..016416c 100644
--- a/internal/engine/task/action.go
+++ b/internal/engine/task/action.go
@@ -1023,8 +1023,8 @@ func exists(t *T) Op {
 	ignore := false
 
 	for ; args != pair.Null; args = pair.Cdr(args) {
-		path := literal.String(pair.Car(args))
-		if path == "-i" {
+		path := common.String(pair.Car(args))
+		if path == "-i" && !ignore {
 			ignore = true
 
 			continue
-- 
2.43.0


From 2ecdf717b5249b5e8978fb07fcb8ee10c5d164a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:46 +0000
Subject: [PATCH 17/51] fix: input can be redirected from a device

---
 internal/engine/boot/boot.oh | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/internal/engine/boot/boot.oh b/internal/engine/boot/boot.oh
index c19c6ec..8e627ac 100644
--- a/internal/engine/boot/boot.oh
+++ b/internal/engine/boot/boot.oh
@@ -260,14 +260,12 @@ block {
 
             define f ()
             if (not (or (chan? $c) (pipe? $c))) {
-                if (and $check (exists -i $c)) {
-                    if (eq? w $mode) {
-                        throw "${c} exists"
-                    }
-                } else {
-                    if (eq? r $mode) {
+                if (eq? r $mode) {
+                    if (not: exists $c) {
                         throw "${c} does not exist"
                     }
+                } else if (and $check (exists -i $c) (eq? w $mode)) {
+                    throw "${c} exists"
                 }
                 set f: open $mode $c
                 set c $f
-- 
2.43.0


From df7b02f9b1260ff1651315a8d677d112986f2964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:23 +0000
Subject: [PATCH 18/51] fix: exit with too many arguments is an error and
 nothing more

---
 internal/engine/task/action.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/engine/task/action.go b/internal/engine/task/action.go
index 016416c..9dbd9c8 100644
--- a/internal/engine/task/action.go
+++ b/internal/engine/task/action.go
@@ -1054,9 +1054,11 @@ func glob(t *T) Op {
 // Methods.
 
 func exit(t *T) Op {
+	op := fatal(t)
+
 	t.Exit()
 
-	return fatal(t)
+	return op
 }
 
 func fatal(t *T) Op {
-- 
2.43.0


From 474e96cd8cabc310c7c96efe8e96cd72fa40e560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:42 +0000
Subject: [PATCH 19/51] fix: literals of fractions and improper lists read back
 as themselves

---
 internal/common/type/num/num.go       |  8 +++++++-
 internal/common/type/pair/pair.go     | 20 ++++++++++++++++----
 internal/common/type/status/status.go |  8 +++++++-
 3 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/internal/common/type/num/num.go b/internal/common/type/num/num.go
index 6047ef9..8c795ae 100644
--- a/internal/common/type/num/num.go
+++ b/internal/common/type/num/num.go
@@ -53,7 +53,13 @@ func (n *num) Equal(c cell.I) bool {
 
 // Literal returns the literal representation of the num n.
 func (n *num) Literal() string {
-	return "(|" + name + " " + n.String() + "|)"
+	text := n.String()
+	if !n.Rat().IsInt() {
+		// The reader takes an unquoted slash to be a word of its own.
+		text = "'" + text + "'"
+	}
+
+	return "(|" + name + " " + text + "|)"
 }
 
 // Name returns the type name for the num n.
diff --git a/internal/common/type/pair/pair.go b/internal/common/type/pair/pair.go
index a2472ee..6f2edc3 100644
--- a/internal/common/type/pair/pair.go
+++ b/internal/common/type/pair/pair.go
@@ -54,18 +54,17 @@ func (p *pair) String() string {
 func (p *pair) string(toString func(cell.I) string) string {
 	s := ""
 
-	improper := false
+	improper := !proper(p)
 
 	tail := Cdr(p)
-	if !Is(tail) {
-		improper = true
+	if improper {
 		s += "(|" + name + " "
 	}
 
 	sublist := false
 
 	head := Car(p)
-	if Is(head) && Is(Cdr(head)) {
+	if proper(head) {
 		sublist = true
 		s += "("
 	}
@@ -168,6 +167,19 @@ func mutable(c cell.I) *pair {
 	return To(c)
 }
 
+// proper returns true if c is a list that ends with Null.
+func proper(c cell.I) bool {
+	for Is(c) {
+		if c == Null {
+			return true
+		}
+
+		c = Cdr(c)
+	}
+
+	return false
+}
+
 // A compiler-checked list of interfaces this type satisfies. Never called.
 func implements() { //nolint:deadcode,unused
 	var t pair
diff --git a/internal/common/type/status/status.go b/internal/common/type/status/status.go
index b2383bd..0e11121 100644
--- a/internal/common/type/status/status.go
+++ b/internal/common/type/status/status.go
@@ -53,7 +53,13 @@ func (s *status) Equal(c cell.I) bool {
 
 // Literal returns the literal representation of the status s.
 func (s *status) Literal() string {
-	return "(|" + name + " " + s.String() + "|)"
+	text := s.String()
+	if !s.Rat().IsInt() {
+		// The reader takes an unquoted slash to be a word of its own.
+		text = "'" + text + "'"
+	}
+
+	return "(|" + name + " " + text + "|)"
 }
 
 // Rat returns the value of the status s as a *big.Rat.
-- 
2.43.0


From 3b7f13e1cc6599ac6422e0b5b04f2f31bcd06d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:46 +0000
Subject: [PATCH 20/51] fix: the last line of a file needs no newline

---
 internal/common/type/pipe/pipe.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/common/type/pipe/pipe.go b/internal/common/type/pipe/pipe.go
index 19303b6..c812358 100644
--- a/internal/common/type/pipe/pipe.go
+++ b/internal/common/type/pipe/pipe.go
@@ -293,13 +293,14 @@ func W(c cell.I) *os.File {
 	return To(c).w
 }
 
-// Read a line and return it, including the newline.
+// Read a line and return it, including the newline. The end of the input ends
+// its last line.
 func line(b *bufio.Reader) (string, bool) {
 	s, err := b.ReadString('\n')
 
 	if errors.Is(err, io.EOF) {
 		if len(s) > 0 {
-			return s, true
+			return s + "\n", true
 		}
 
 		return "", false
-- 
2.43.0


From 047a510c091116bd16debfb9795fde50b11e7bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:45 +0000
Subject: [PATCH 21/51] fix: cd answers false when there is nowhere to go

---
 internal/engine/task/action.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/internal/engine/task/action.go b/internal/engine/task/action.go
index 9dbd9c8..235825f 100644
--- a/internal/engine/task/action.go
+++ b/internal/engine/task/action.go
@@ -991,17 +991,21 @@ func makeListScope() scope.I {
 func cd(t *T) Op {
 	args := t.expand(t.code)
 
-	dir := ""
+	dir, name := "", ""
 
 	if args == pair.Null {
-		_, r := t.frame.Resolve("HOME")
-		dir = common.String(r.Get())
-	} else {
-		dir = common.String(pair.Car(args))
+		name = "HOME"
+	} else if dir = common.String(pair.Car(args)); dir == "-" {
+		name = "OLDPWD"
 	}
 
-	if dir == "-" {
-		_, r := t.frame.Resolve("OLDPWD")
+	if name != "" {
+		_, r := t.frame.Resolve(name)
+		if r == nil {
+			// There is nowhere to go.
+			return t.Return(pair.Null)
+		}
+
 		dir = common.String(r.Get())
 	}
 
-- 
2.43.0


From 54d029c52adb6c7766d2bd11dd210ed08eb240be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:36 +0000
Subject: [PATCH 22/51] fix: naming a directory as a command answers true or
 false

---
 internal/engine/task/action.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/engine/task/action.go b/internal/engine/task/action.go
index 235825f..7473fa1 100644
--- a/internal/engine/task/action.go
+++ b/internal/engine/task/action.go
@@ -812,6 +812,9 @@ func external(t *T) Op {
 	cache.Check(arg0)
 
 	if !executable {
+		// There is no process to resume after.
+		t.RemoveOp()
+
 		return t.Return(t.Chdir(name))
 	}
 
-- 
2.43.0


From 375997139d90de1f6d984f03393fd09592c129b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:33 +0000
Subject: [PATCH 23/51] fix: redirected and piped commands see a variable named
 r

---
 internal/engine/boot/boot.oh | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/internal/engine/boot/boot.oh b/internal/engine/boot/boot.oh
index 8e627ac..fa3ac22 100644
--- a/internal/engine/boot/boot.oh
+++ b/internal/engine/boot/boot.oh
@@ -176,16 +176,14 @@ block {
     define wrap-redir-r-ex: method ((block)) {
         set block: cons block $block
 
+        # Nothing is defined here as the block must only see the variables
+        # of its own scope.
         quasiquote ((method () {
-            define r ()
-
             catch ex {
-                return (cons $r $ex)
+                return (cons () $ex)
             }
 
-            set r (unquote $block)
-
-            throw ()
+            return (cons (unquote $block) ())
         }))
     }
 
-- 
2.43.0


From b067237de545f7dcbd6ba3b2535dd6f6eabb14ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:15 +0000
Subject: [PATCH 24/51] fix: return and catch in redirected commands and stages
 of pipelines

---
 internal/engine/boot/boot.oh | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/internal/engine/boot/boot.oh b/internal/engine/boot/boot.oh
index fa3ac22..b6073fb 100644
--- a/internal/engine/boot/boot.oh
+++ b/internal/engine/boot/boot.oh
@@ -176,8 +176,10 @@ block {
     define wrap-redir-r-ex: method ((block)) {
         set block: cons block $block
 
-        # Nothing is defined here as the block must only see the variables
-        # of its own scope.
+        set block: list block (list define return (list $end-stage (list resolve return))) $block
+
+        # Nothing else is defined here as the block must only see the
+        # variables of its own scope.
         quasiquote ((method () {
             catch ex {
                 return (cons () $ex)
@@ -187,6 +189,20 @@ block {
         }))
     }
 
+    # Returning from a stage ends the stage.
+    define end-stage: method (end) {
+        method ((value)) {
+            end (cons (unless-null $value) ())
+        }
+    }
+
+    define unless-null: method (l) {
+        if (null? $l) {
+            return ()
+        }
+        return (l head)
+    }
+
     define collect-unwrap-r-ex: method (c n) {
         define r ()
 
@@ -269,6 +285,18 @@ block {
                 set c $f
             }
 
+            # Returning from the command closes the file and leaves the
+            # method the command is in.
+            if (e eval (list resolves? return)) {
+                define leave: e eval (list resolve return)
+                set cmd: list block (list define return (method ((value)) {
+                    if (not: null? $f) {
+                        f $closer
+                    }
+                    leave (unless-null $value)
+                })) $cmd
+            }
+
             define ec-ex: override $e $c $cmd
             if (not: null? $f) {
                 f $closer
-- 
2.43.0


From 5127a9fe0c423e75495dc8eff24cdc0a576ee4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:59 +0000
Subject: [PATCH 25/51] fix: every call in tail position kept its caller's
 variables

---
 internal/engine/task/action.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/engine/task/action.go b/internal/engine/task/action.go
index 7473fa1..69acf33 100644
--- a/internal/engine/task/action.go
+++ b/internal/engine/task/action.go
@@ -237,7 +237,9 @@ func apply(t *T) Op {
 
 	t.ReplaceOp(&registers{frame: t.frame})
 
-	cc := &registers{dump: t.dump, stack: t.stack}
+	// The current result is replaced when returning. Leave it out as it
+	// refers to the caller's scope.
+	cc := &registers{dump: pair.Cons(pair.Null, pair.Cdr(t.dump)), stack: t.stack}
 
 	// If the visibility differs, create a new frame.
 	if !c.Scope.Visible(s) {
-- 
2.43.0


From 87a9e0cc64d02ccd67aca244197ac3454878e092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:34 +0000
Subject: [PATCH 26/51] fix: a call at the end of a branch followed by else
 kept its place on the stack

---
 internal/engine/task/action.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/engine/task/action.go b/internal/engine/task/action.go
index 69acf33..052b470 100644
--- a/internal/engine/task/action.go
+++ b/internal/engine/task/action.go
@@ -480,7 +480,8 @@ func evalBlock(t *T) Op {
 	}
 
 	next := pair.Cdr(t.code)
-	if next == pair.Null {
+	if next == pair.Null || !pair.Is(pair.Car(next)) {
+		// The last command, of the block or before an else-clause.
 		t.RemoveOp()
 	} else {
 		t.PushOp(&registers{code: next})
-- 
2.43.0


From 84832ea5dbc91d0db9968fe9390eaf6376251b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:16 +0000
Subject: [PATCH 27/51] fix: the status of a command that dumped core is 128
 plus the signal

---
 internal/system/job/job_unix.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/system/job/job_unix.go b/internal/system/job/job_unix.go
index 23c6e34..c4e4c98 100644
--- a/internal/system/job/job_unix.go
+++ b/internal/system/job/job_unix.go
@@ -420,14 +420,15 @@ func (j *job) notify(pid int, ws unix.WaitStatus) {
 		return
 	}
 
-	code := int(ws)
+	code := 0
 
 	switch {
 	case ws.Exited():
 		code = ws.ExitStatus()
 
 	case ws.Signaled():
-		code += 128
+		// Without the bit that says whether there was a core dump.
+		code = int(ws.Signal()) + 128
 
 	default:
 		return
-- 
2.43.0


From fd5f2b923b6c94b470261555fc8739376a6105a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:16 +0000
Subject: [PATCH 28/51] fix: a command killed while it is stopped ends its task

---
 internal/system/job/job_unix.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/system/job/job_unix.go b/internal/system/job/job_unix.go
index c4e4c98..6d6893d 100644
--- a/internal/system/job/job_unix.go
+++ b/internal/system/job/job_unix.go
@@ -402,6 +402,11 @@ func (j *job) notify(pid int, ws unix.WaitStatus) {
 	}
 
 	t, found := j.running[pid]
+	if !found && !ws.Stopped() {
+		// A process can be killed while it is stopped.
+		t, found = j.stopped[pid]
+	}
+
 	if !found {
 		println("UNKNOWN PID STATUS CHANGE", pid)
 
@@ -435,6 +440,7 @@ func (j *job) notify(pid int, ws unix.WaitStatus) {
 	}
 
 	delete(j.running, pid)
+	delete(j.stopped, pid)
 	delete(active, pid)
 
 	if len(j.running) == 0 && len(j.stopped) == 0 {
-- 
2.43.0


From 542e183f5ffed2bc6c531c99cfdc15a4727a0717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:06 +0000
Subject: [PATCH 29/51] fix: continuing a job some of whose tasks had not
 stopped crashed the shell

---
 internal/engine/task/state.go   | 37 ++++++++++++++++++++++++---------
 internal/engine/task/task.go    | 20 +++++++++++-------
 internal/system/job/job_unix.go | 16 +++++++++-----
 3 files changed, 51 insertions(+), 22 deletions(-)

diff --git a/internal/engine/task/state.go b/internal/engine/task/state.go
index 2c449dc..e2fbc19 100644
--- a/internal/engine/task/state.go
+++ b/internal/engine/task/state.go
@@ -29,6 +29,7 @@ type state struct {
 
 	result cell.I
 
+	again    bool
 	exited   bool
 	running  bool
 	stopping bool
@@ -109,24 +110,34 @@ func (s *state) Runnable() bool {
 	return s.running
 }
 
-// Started marks the task as running.
-// Calling this on a task that is already running results in a panic.
+// Started marks the task as running and returns true if it has to be run. A
+// task that has not stopped yet carries on instead. A task that has stopped
+// but not called Stopped is run again once it has.
 //
 // R S W -> R S W
-// 0 0 X -> 1 0 X
-// 0 1 X -> 0 0 X
-// 1 X X    1 X X panic.
+// 0 0 X -> 1 0 X returns true
+// 0 1 X -> 0 1 X returns false, Stopped returns true
+// 1 X X -> 1 0 X returns false.
 //
-func (s *state) Started() {
+func (s *state) Started() bool {
 	s.Lock()
 	defer s.Unlock()
 
 	if s.running {
-		// Why is this already running?
-		panic("already running")
+		s.stopping = false
+
+		return false
+	}
+
+	if s.stopping {
+		s.again = true
+
+		return false
 	}
 
 	s.running = true
+
+	return true
 }
 
 // Stop marks a running task as stopping and waits for a signal that the task
@@ -143,6 +154,8 @@ func (s *state) Stop(f func()) {
 	s.Lock()
 	defer s.Unlock()
 
+	s.again = false
+
 	if s.stopping {
 		return
 	}
@@ -168,24 +181,28 @@ func (s *state) Stop(f func()) {
 }
 
 // Stopped clears running and stopping and if stopping was set, signals that
-// the task has stopped.
+// the task has stopped. It returns true if the task should be run again.
 //
 // R S W -> R S W
 // X 0 X -> 0 0 X
 // 0 1 X -> 0 0 X signals task has stopped.
 //
-func (s *state) Stopped() {
+func (s *state) Stopped() bool {
 	s.Lock()
 	defer s.Unlock()
 
+	again := s.again
 	signal := s.stopping
 
+	s.again = false
 	s.running = false
 	s.stopping = false
 
 	if signal {
 		s.stopped.Signal()
 	}
+
+	return again
 }
 
 // Value returns the most recent value set by notify.
diff --git a/internal/engine/task/task.go b/internal/engine/task/task.go
index 1819c54..0d4d960 100644
--- a/internal/engine/task/task.go
+++ b/internal/engine/task/task.go
@@ -159,14 +159,10 @@ func (t *T) Return(c cell.I) Op {
 	return t.PreviousOp()
 }
 
-// Run steps through a tasks operations until they are exhausted.
+// Run starts a task, or allows a stopped task to continue.
 func (t *T) Run() {
-	t.Started()
-	defer t.job.Stopped(t)
-
-	s := t.Op()
-	for t.state.Runnable() && s != nil {
-		s = t.Step(s)
+	if t.Started() {
+		go t.run()
 	}
 }
 
@@ -281,6 +277,16 @@ func (t *T) resolve(s scope.I, k string) cell.I {
 	return v
 }
 
+// Steps through a tasks operations until they are exhausted.
+func (t *T) run() {
+	defer t.job.Stopped(t)
+
+	s := t.Op()
+	for t.state.Runnable() && s != nil {
+		s = t.Step(s)
+	}
+}
+
 func (t *T) stringValue(k string) string {
 	v := t.value(nil, k)
 	if v == nil {
diff --git a/internal/system/job/job_unix.go b/internal/system/job/job_unix.go
index 6d6893d..10c246f 100644
--- a/internal/system/job/job_unix.go
+++ b/internal/system/job/job_unix.go
@@ -172,7 +172,7 @@ func (j *job) Spawn(p, c *task.T, fn func()) {
 			wgs[w] = struct{}{}
 		}
 
-		go c.Run()
+		c.Run()
 
 		// Ack.
 		close(done)
@@ -184,9 +184,15 @@ func (j *job) Spawn(p, c *task.T, fn func()) {
 
 func (j *job) Stopped(t *task.T) {
 	requestq <- func() {
-		t.Stopped()
+		again := t.Stopped()
 
 		if !t.Completed() {
+			if again {
+				t.Run()
+
+				return
+			}
+
 			if foreground != nil && foreground.main == t {
 				tell(t)
 
@@ -249,7 +255,7 @@ func Bg(w io.Writer, n int) *task.T {
 			j.running[pid] = t
 		}
 
-		go j.main.Run()
+		j.main.Run()
 
 		r <- j.main
 
@@ -309,7 +315,7 @@ func Fg(w io.Writer, n int) bool {
 			j.running[pid] = t
 		}
 
-		go foreground.main.Run()
+		foreground.main.Run()
 
 		r <- true
 
@@ -587,7 +593,7 @@ func resume(t *task.T) {
 	for _, child := range children[t] {
 		resume(child)
 
-		go child.Run()
+		child.Run()
 	}
 }
 
-- 
2.43.0


From 0c8aec6a07c2ef0dec0e1a63ba320a555051ae73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:34 +0000
Subject: [PATCH 30/51] fix: a job brought to the foreground could not be
 stopped and continued again

---
 internal/system/job/job_unix.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/system/job/job_unix.go b/internal/system/job/job_unix.go
index 10c246f..a54670e 100644
--- a/internal/system/job/job_unix.go
+++ b/internal/system/job/job_unix.go
@@ -296,7 +296,7 @@ func Fg(w io.Writer, n int) bool {
 		waiting[j.main] = waiting[foreground.main]
 		delete(waiting, foreground.main)
 
-		foreground.main = j.main
+		foreground = j
 
 		delete(jobs, n)
 
-- 
2.43.0


From 89cea338a6eb515420aa119b22376f9dba11045a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:09 +0000
Subject: [PATCH 31/51] fix: a job that stopped in the background could not be
 continued

---
 internal/system/job/job_unix.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/internal/system/job/job_unix.go b/internal/system/job/job_unix.go
index a54670e..7a18fe6 100644
--- a/internal/system/job/job_unix.go
+++ b/internal/system/job/job_unix.go
@@ -193,8 +193,10 @@ func (j *job) Stopped(t *task.T) {
 				return
 			}
 
-			if foreground != nil && foreground.main == t {
-				tell(t)
+			if j.main == t {
+				if j == foreground {
+					tell(t)
+				}
 
 				number := 1
 				for n := range jobs {
@@ -202,7 +204,7 @@ func (j *job) Stopped(t *task.T) {
 						number = n + 1
 					}
 				}
-				jobs[number] = foreground
+				jobs[number] = j
 
 				printJobs(os.Stdout, number)
 			}
-- 
2.43.0


From 54f37ddc9ee6cdc6a901e5ce7df29f072df52869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:09 +0000
Subject: [PATCH 32/51] fix: the tasks of a job without processes did not
 continue with it

---
 internal/system/job/job_unix.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/system/job/job_unix.go b/internal/system/job/job_unix.go
index 7a18fe6..e279070 100644
--- a/internal/system/job/job_unix.go
+++ b/internal/system/job/job_unix.go
@@ -257,6 +257,10 @@ func Bg(w io.Writer, n int) *task.T {
 			j.running[pid] = t
 		}
 
+		if len(j.stopped) == 0 {
+			resume(j.main)
+		}
+
 		j.main.Run()
 
 		r <- j.main
@@ -317,6 +321,10 @@ func Fg(w io.Writer, n int) bool {
 			j.running[pid] = t
 		}
 
+		if len(j.stopped) == 0 {
+			resume(j.main)
+		}
+
 		foreground.main.Run()
 
 		r <- true
-- 
2.43.0


From 1a15b136e1471d0df8822519a2f59651813fe736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:45 +0000
Subject: [PATCH 33/51] fix: interrupting a task changed its stack while it ran

---
 internal/engine/task/state.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/internal/engine/task/state.go b/internal/engine/task/state.go
index e2fbc19..11dc55c 100644
--- a/internal/engine/task/state.go
+++ b/internal/engine/task/state.go
@@ -27,7 +27,8 @@ type state struct {
 	resume  *sync.Cond
 	stopped *sync.Cond
 
-	result cell.I
+	finally func()
+	result  cell.I
 
 	again    bool
 	exited   bool
@@ -124,7 +125,8 @@ func (s *state) Started() bool {
 	defer s.Unlock()
 
 	if s.running {
-		s.stopping = false
+		// A task that has been interrupted does not carry on.
+		s.stopping = s.stopping && s.finally != nil
 
 		return false
 	}
@@ -142,7 +144,8 @@ func (s *state) Started() bool {
 
 // Stop marks a running task as stopping and waits for a signal that the task
 // has stopped. If the task is waiting Stop signals it to resume so that it
-// can unblock and signal that it has stopped.
+// can unblock and signal that it has stopped. The function f, if any, is called
+// once the task has stopped.
 //
 // R S W -> R S W
 // X 1 X -> X 1 X
@@ -157,6 +160,10 @@ func (s *state) Stop(f func()) {
 	s.again = false
 
 	if s.stopping {
+		if f != nil {
+			s.finally = f
+		}
+
 		return
 	}
 
@@ -165,12 +172,9 @@ func (s *state) Stop(f func()) {
 		return
 	}
 
+	s.finally = f
 	s.stopping = true
 
-	if f != nil {
-		f()
-	}
-
 	if s.waiting {
 		s.resume.Signal()
 	}
@@ -194,7 +198,12 @@ func (s *state) Stopped() bool {
 	again := s.again
 	signal := s.stopping
 
+	if signal && s.finally != nil {
+		s.finally()
+	}
+
 	s.again = false
+	s.finally = nil
 	s.running = false
 	s.stopping = false
 
-- 
2.43.0


From 1e384413ecca06f1cb1820e06d8d1493f2dad648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:21 +0000
Subject: [PATCH 34/51] fix: a job whose last running process ends while others
 are stopped did not stop

---
 internal/system/job/job_unix.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/internal/system/job/job_unix.go b/internal/system/job/job_unix.go
index e279070..746cfb0 100644
--- a/internal/system/job/job_unix.go
+++ b/internal/system/job/job_unix.go
@@ -459,8 +459,13 @@ func (j *job) notify(pid int, ws unix.WaitStatus) {
 	delete(j.stopped, pid)
 	delete(active, pid)
 
-	if len(j.running) == 0 && len(j.stopped) == 0 {
-		j.group = j.initial
+	if len(j.running) == 0 {
+		if len(j.stopped) == 0 {
+			j.group = j.initial
+		} else {
+			// Every process that is left has stopped. Stop the task.
+			j.stop()
+		}
 	}
 
 	t.Notify(status.Int(code))
-- 
2.43.0


From 691ed19df693f1b567a2b36c59a9fb0c80e180f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:32 +0000
Subject: [PATCH 35/51] fix: the value of a pipeline was that of whichever
 stage ended last

---
 internal/engine/boot/boot.oh | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/internal/engine/boot/boot.oh b/internal/engine/boot/boot.oh
index b6073fb..8460461 100644
--- a/internal/engine/boot/boot.oh
+++ b/internal/engine/boot/boot.oh
@@ -254,10 +254,13 @@ block {
                 p writer-close
             } 
 
-            c write (override-stdin $e $p $right)
+            define r-ex: override-stdin $e $p $right
             p reader-close
 
-            collect-unwrap-r-ex $c 2
+            # The value of a pipeline is the value of its last stage.
+            collect-unwrap-r-ex $c 1
+            c write $r-ex
+            collect-unwrap-r-ex $c 1
         }
     }
 
-- 
2.43.0


From 0c4f0059b030e2d24d46b0b3b16a1481ecebd6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:19 +0000
Subject: [PATCH 36/51] fix: a pipeline waiting for a stage that has stopped
 could not be stopped

---
 internal/engine/boot/boot.oh | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/internal/engine/boot/boot.oh b/internal/engine/boot/boot.oh
index 8460461..4aa8e52 100644
--- a/internal/engine/boot/boot.oh
+++ b/internal/engine/boot/boot.oh
@@ -249,14 +249,17 @@ block {
             define c: chan 2
             define p: pipe
 
-            spawn {
+            define t: spawn {
                 c write (override $e $p $left)
                 p writer-close
-            } 
+            }
 
             define r-ex: override-stdin $e $p $right
             p reader-close
 
+            # A task that waits for another can be stopped.
+            wait $t
+
             # The value of a pipeline is the value of its last stage.
             collect-unwrap-r-ex $c 1
             c write $r-ex
-- 
2.43.0


From c53f3c1308c18bd843df7be09b1d1b93d15b3607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:48 +0000
Subject: [PATCH 37/51] fix: whether a job stops depended on the order in which
 statuses came

---
 internal/system/job/job_unix.go | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/internal/system/job/job_unix.go b/internal/system/job/job_unix.go
index 746cfb0..4da02da 100644
--- a/internal/system/job/job_unix.go
+++ b/internal/system/job/job_unix.go
@@ -430,11 +430,6 @@ func (j *job) notify(pid int, ws unix.WaitStatus) {
 	}
 
 	if ws.Stopped() {
-		if len(j.running) == 1 {
-			// The last running process is stopping. Stop the task.
-			j.stop()
-		}
-
 		j.stopped[pid] = t
 		delete(j.running, pid)
 
@@ -459,13 +454,8 @@ func (j *job) notify(pid int, ws unix.WaitStatus) {
 	delete(j.stopped, pid)
 	delete(active, pid)
 
-	if len(j.running) == 0 {
-		if len(j.stopped) == 0 {
-			j.group = j.initial
-		} else {
-			// Every process that is left has stopped. Stop the task.
-			j.stop()
-		}
+	if len(j.running) == 0 && len(j.stopped) == 0 {
+		j.group = j.initial
 	}
 
 	t.Notify(status.Int(code))
@@ -565,6 +555,8 @@ func reap() {
 
 	options := unix.WNOHANG | unix.WUNTRACED | unix.WCONTINUED
 
+	changed := []*job{}
+
 	for {
 		pid, _ := unix.Wait4(-1, &status, options, &rusage)
 		if pid <= 0 {
@@ -574,10 +566,19 @@ func reap() {
 		j, ok := active[pid]
 		if ok {
 			j.notify(pid, status)
+
+			changed = append(changed, j)
 		} else {
 			println("UNKNOWN PID", pid)
 		}
 	}
+
+	for _, j := range changed {
+		if len(j.running) == 0 && len(j.stopped) > 0 {
+			// Every process that is left has stopped. Stop the task.
+			j.stop()
+		}
+	}
 }
 
 func remove(cs []*task.T, t *task.T) []*task.T {
-- 
2.43.0


From baf07a20d161df6305c88c38617bb09d4b154e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:51 +0000
Subject: [PATCH 38/51] fix: a process that stopped just as another of its job
 continued was continued too

---
 internal/system/job/job_unix.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/internal/system/job/job_unix.go b/internal/system/job/job_unix.go
index 4da02da..fbac337 100644
--- a/internal/system/job/job_unix.go
+++ b/internal/system/job/job_unix.go
@@ -463,10 +463,6 @@ func (j *job) notify(pid int, ws unix.WaitStatus) {
 
 func (j *job) resume() {
 	resume(j.main)
-
-	for pid := range j.running {
-		process.Continue(pid)
-	}
 }
 
 func (j *job) stop() {
-- 
2.43.0


From f73ed0c720b0f90f86705832e52b744c94c0e0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:59 +0000
Subject: [PATCH 39/51] fix: reading from a pipe with a blocked writer never
 ended, and records of several writers or readers could mix

---
 internal/common/type/pipe/pipe.go | 186 +++++++++++++-----------------
 1 file changed, 78 insertions(+), 108 deletions(-)

diff --git a/internal/common/type/pipe/pipe.go b/internal/common/type/pipe/pipe.go
index c812358..46eaecc 100644
--- a/internal/common/type/pipe/pipe.go
+++ b/internal/common/type/pipe/pipe.go
@@ -25,11 +25,13 @@ const name = "pipe"
 
 // T (pipe) is oh's pipe conduit type.
 type T struct {
-	sync.RWMutex
-	b *bufio.Reader
-	p *reader.T
-	r *os.File
-	w *os.File
+	sync.RWMutex // Guards r and w. Never held while reading or writing.
+	r            *os.File
+	w            *os.File
+
+	reading sync.Mutex // Guards b and p. Held while reading.
+	b       *bufio.Reader
+	p       *reader.T
 }
 
 type pipe = T
@@ -78,18 +80,19 @@ func (p *pipe) Name() string {
 
 // Read reads a cell from the pipe.
 func (p *pipe) Read() cell.I {
-	b := p.buffer()
-	if b == nil {
-		return pair.Null
-	}
+	p.reading.Lock()
+	defer p.reading.Unlock()
 
-	r := p.reader()
+	r := p.readEnd()
 	if r == nil {
 		return pair.Null
 	}
 
-	p.RLock()
-	defer p.RUnlock()
+	if p.p == nil {
+		p.p = reader.New(r.Name())
+	}
+
+	b := p.buffer(r)
 
 	var (
 		c   cell.I
@@ -98,7 +101,7 @@ func (p *pipe) Read() cell.I {
 
 	s, ok := line(b)
 	for ok {
-		c, err = r.Scan(s)
+		c, err = p.p.Scan(s)
 		if err != nil {
 			panic(err.Error())
 		}
@@ -119,13 +122,15 @@ func (p *pipe) Read() cell.I {
 
 // ReadLine reads a line from the pipe.
 func (p *pipe) ReadLine() cell.I {
-	b := p.buffer()
-	if b == nil {
+	p.reading.Lock()
+	defer p.reading.Unlock()
+
+	r := p.readEnd()
+	if r == nil {
 		return pair.Null
 	}
 
-	p.RLock()
-	defer p.RUnlock()
+	b := p.buffer(r)
 
 	s, ok := line(b)
 	if !ok {
@@ -137,68 +142,37 @@ func (p *pipe) ReadLine() cell.I {
 
 // ReaderClose closes the read end of the pipe and sets it to nil.
 func (p *pipe) ReaderClose() {
-	p.readerClosePipe()
-	p.readerPipeNil()
-}
+	closeFile(p.takeReadEnd())
 
-// Write writes a cell to the pipe.
-func (p *pipe) Write(c cell.I) {
-	// Yes, RLock. This is a write but doesn't change the pipe itself.
-	p.RLock()
-	defer p.RUnlock()
+	p.reading.Lock()
+	defer p.reading.Unlock()
 
-	if p.w == nil {
-		panic("write to closed pipe")
+	if p.p != nil {
+		p.p.Close()
 	}
 
-	_, err := p.w.WriteString(literal.String(c))
-	if err != nil {
-		panic(err.Error())
-	}
+	p.b = nil
+	p.p = nil
+}
 
-	_, err = p.w.WriteString("\n")
-	if err != nil {
-		panic(err.Error())
-	}
+// Write writes a cell to the pipe.
+func (p *pipe) Write(c cell.I) {
+	p.write(literal.String(c))
 }
 
 // WriteLine writes the string value of a cell to the pipe.
 func (p *pipe) WriteLine(c cell.I) {
-	// Yes, RLock. This is a write but doesn't change the pipe itself.
-	p.RLock()
-	defer p.RUnlock()
-
-	if p.w == nil {
-		panic("write to closed pipe")
-	}
-
-	_, err := p.w.WriteString(common.String(c))
-	if err != nil {
-		panic(err.Error())
-	}
-
-	_, err = p.w.WriteString("\n")
-	if err != nil {
-		panic(err.Error())
-	}
+	p.write(common.String(c))
 }
 
 // WriterClose closes the write end of the pipe.
 func (p *pipe) WriterClose() {
-	p.writerClosePipe()
-	p.writerPipeNil()
+	closeFile(p.takeWriteEnd())
 }
 
-func (p *pipe) buffer() *bufio.Reader {
-	p.Lock()
-	defer p.Unlock()
-
-	if p.r == nil {
-		return nil
-	}
-
+func (p *pipe) buffer(r *os.File) *bufio.Reader {
 	if p.b == nil {
-		p.b = bufio.NewReader(p.r)
+		p.b = bufio.NewReader(r)
 	}
 
 	return p.b
@@ -218,79 +192,75 @@ func (p *pipe) closeableWriteEnd() bool {
 	return p.w != nil && len(p.w.Name()) > 0
 }
 
-func (p *pipe) reader() *reader.T {
-	p.Lock()
-	defer p.Unlock()
-
-	if p.r == nil {
-		return nil
-	}
-
-	if p.p == nil {
-		p.p = reader.New(p.r.Name())
-	}
-
-	return p.p
-}
-
-// readerClosePipe closes the read end of the pipe.
-func (p *pipe) readerClosePipe() {
+func (p *pipe) readEnd() *os.File {
 	p.RLock()
 	defer p.RUnlock()
 
-	if p.p != nil {
-		p.p.Close()
-	}
-
-	if p.r != nil {
-		err := p.r.Close()
-		if err != nil {
-			panic(err.Error())
-		}
-	}
+	return p.r
 }
 
-// readerPipeNil sets the read end of the pipe to nil.
-func (p *pipe) readerPipeNil() {
+// takeReadEnd sets the read end of the pipe to nil and returns what it was.
+func (p *pipe) takeReadEnd() *os.File {
 	p.Lock()
 	defer p.Unlock()
 
-	p.b = nil
-	p.p = nil
+	r := p.r
 	p.r = nil
+
+	return r
 }
 
-// writerClosePipe closes the write end of the pipe.
-func (p *pipe) writerClosePipe() {
-	p.RLock()
-	defer p.RUnlock()
+// takeWriteEnd sets the write end of the pipe to nil and returns what it was.
+func (p *pipe) takeWriteEnd() *os.File {
+	p.Lock()
+	defer p.Unlock()
 
-	if p.w == nil {
-		return
+	w := p.w
+	p.w = nil
+
+	return w
+}
+
+// Write a record. As this is a single write, records are never mixed.
+func (p *pipe) write(s string) {
+	w := p.writeEnd()
+	if w == nil {
+		panic("write to closed pipe")
 	}
 
-	err := p.w.Close()
+	_, err := w.WriteString(s + "\n")
 	if err != nil {
 		panic(err.Error())
 	}
 }
 
-// writerPipeNil sets the write end of the pipe to nil.
-func (p *pipe) writerPipeNil() {
-	p.Lock()
-	defer p.Unlock()
+func (p *pipe) writeEnd() *os.File {
+	p.RLock()
+	defer p.RUnlock()
 
-	p.w = nil
+	return p.w
 }
 
 // R converts c to a pipe and returns the read end of the pipe.
 func R(c cell.I) *os.File {
-	return To(c).r
+	return To(c).readEnd()
 }
 
 // W converts c to a pipe and returns the write end of the pipe.
 func W(c cell.I) *os.File {
-	return To(c).w
+	return To(c).writeEnd()
+}
+
+// The ends of a pipe may be the same file.
+func closeFile(f *os.File) {
+	if f == nil {
+		return
+	}
+
+	err := f.Close()
+	if err != nil && !errors.Is(err, os.ErrClosed) {
+		panic(err.Error())
+	}
 }
 
 // Read a line and return it, including the newline. The end of the input ends
-- 
2.43.0


From efbbb97a4071b306b2f00aa8a54ff312c71de18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:59 +0000
Subject: [PATCH 40/51] fix: read-line on a channel replaced escape sequences

---
 internal/common/type/chn/chn.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/internal/common/type/chn/chn.go b/internal/common/type/chn/chn.go
index 52f5f42..9688daa 100644
--- a/internal/common/type/chn/chn.go
+++ b/internal/common/type/chn/chn.go
@@ -6,7 +6,6 @@ package chn
 import (
 	"fmt"
 
-	"github.com/michaelmacinnis/adapted"
 	"github.com/michaelmacinnis/oh/internal/common/interface/cell"
 	"github.com/michaelmacinnis/oh/internal/common/interface/conduit"
 	"github.com/michaelmacinnis/oh/internal/common/interface/literal"
@@ -62,10 +61,7 @@ func (c *chn) ReadLine() cell.I {
 
 	i, ok := v.(fmt.Stringer)
 	if ok {
-		s, err := adapted.ActualBytes(i.String())
-		if err == nil {
-			return str.New(s)
-		}
+		return str.New(i.String())
 	}
 
 	return str.New(literal.String(v))
-- 
2.43.0


From 51b8ed6157e85fc6d3c4ce6a432dc2a11c9ee0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:00 +0000
Subject: [PATCH 41/51] fix: reading from a pipe after a syntax error never
 ended

---
 internal/common/type/pipe/pipe.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/common/type/pipe/pipe.go b/internal/common/type/pipe/pipe.go
index 46eaecc..a08d2fa 100644
--- a/internal/common/type/pipe/pipe.go
+++ b/internal/common/type/pipe/pipe.go
@@ -103,6 +103,10 @@ func (p *pipe) Read() cell.I {
 	for ok {
 		c, err = p.p.Scan(s)
 		if err != nil {
+			// A reader is of no use after an error.
+			p.p.Close()
+			p.p = nil
+
 			panic(err.Error())
 		}
 
-- 
2.43.0


From 96c19794da0d3a53457e9179ad807b791942040b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:25 +0000
Subject: [PATCH 42/51] fix: commands evaluated at the same time shared the
 frame that holds their location

---
 internal/engine/engine.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/engine/engine.go b/internal/engine/engine.go
index e7ceba4..7ea0245 100644
--- a/internal/engine/engine.go
+++ b/internal/engine/engine.go
@@ -124,7 +124,8 @@ func Resolve(k string) (v string) {
 
 // System evaluates the command c returning the result and if the task exited.
 func System(j *job.T, c cell.I) (cell.I, bool) {
-	t := task.New(j, c, frame0)
+	// A job in the background may still be using its frame.
+	t := task.New(j, c, frame.Dup(scope0, frame0))
 
 	t.PushOp(task.Action(task.EvalCommand))
 
-- 
2.43.0


From fe53a66f34b66902fe9fcf294ad1c39c2619bb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:22 +0000
Subject: [PATCH 43/51] fix: the names in / and in directories reached by links
 were not completed

---
 internal/system/cache/cache.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/system/cache/cache.go b/internal/system/cache/cache.go
index 658148c..1260dae 100644
--- a/internal/system/cache/cache.go
+++ b/internal/system/cache/cache.go
@@ -49,8 +49,6 @@ func Executables(dirname string) []string {
 func Files(dirname string) []string {
 	dirname = filepath.Clean(dirname)
 
-	max := strings.Count(dirname, pathSeparator) + 1
-
 	e := []string{}
 	f := []string{}
 
@@ -72,6 +70,8 @@ func Files(dirname string) []string {
 		dirname = original
 	}
 
+	max := strings.Count(strings.TrimSuffix(dirname, pathSeparator), pathSeparator) + 1
+
 	_ = filepath.Walk(dirname, func(p string, i os.FileInfo, err error) error {
 		if p == dirname {
 			return nil
@@ -89,7 +89,7 @@ func Files(dirname string) []string {
 		}
 
 		if original != dirname {
-			p = strings.Replace(p, dirname, original, 1)
+			p = filepath.Join(original, strings.TrimPrefix(p, dirname))
 		}
 
 		switch {
-- 
2.43.0


From b4bc0ea10ccd65de19c082eabf9a0b4ca590f682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:22 +0000
Subject: [PATCH 44/51] fix: completing after characters outside ASCII changed
 the text typed

---
 main.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/main.go b/main.go
index 09b74c9..78fd2f9 100644
--- a/main.go
+++ b/main.go
@@ -69,8 +69,9 @@ func command() bool {
 
 func completer(j **job.T, r **reader.T) func(s string, n int) (h string, cs []string, t string) {
 	return func(s string, n int) (h string, cs []string, t string) {
-		h = s[:n]
-		t = s[n:]
+		// The cursor is a number of characters.
+		h = string([]rune(s)[:n])
+		t = s[len(h):]
 
 		last := strings.LastIndexAny(h, " ()")
 		completing := h[last+1:]
-- 
2.43.0


From e8681188fc8dc7c89c0aa31239af7befc035a927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:22 +0000
Subject: [PATCH 45/51] fix: words with .., ~ or / at their start were
 completed to names that do not exist, or to hidden ones

---
 main.go | 38 +++++++++++++-------------------------
 1 file changed, 13 insertions(+), 25 deletions(-)

diff --git a/main.go b/main.go
index 78fd2f9..0306f3c 100644
--- a/main.go
+++ b/main.go
@@ -32,16 +32,12 @@ var (
 )
 
 func clean(s string) string {
-	if s == "." || s == pathSeparator+"." {
-		return s
+	head, tail := filepath.Split(s)
+	if head == "" {
+		return tail
 	}
 
-	head, tail := split(s)
-	if tail == s {
-		head, tail = tail, head
-	}
-
-	return filepath.Clean(head) + tail
+	return directory(head) + tail
 }
 
 func command() bool {
@@ -177,6 +173,11 @@ func directories(s string) []string {
 	return dirs
 }
 
+// directory cleans its argument and ends it with exactly one separator.
+func directory(s string) string {
+	return strings.TrimSuffix(filepath.Clean(s), pathSeparator) + pathSeparator
+}
+
 func expand(cwd, home, candidate string) (string, bool) {
 	dotdir := false
 	prefix := candidate + "   "
@@ -206,7 +207,7 @@ func files(cached func(string) []string, cwd, home, paths, word string) []string
 	if !path.IsAbs(candidate) && !dotdir {
 		candidates = directories(paths)
 		for k, v := range candidates {
-			candidates[k] = v + pathSeparator + candidate
+			candidates[k] = join(v, candidate)
 		}
 	}
 
@@ -280,10 +281,10 @@ func interactive() bool {
 
 func join(s ...string) string {
 	last := len(s) - 1
-	head, tail := split(s[last])
+	head, tail := filepath.Split(s[last])
 	s[last] = head
 
-	return filepath.Join(s...) + tail
+	return directory(filepath.Join(s...)) + tail
 }
 
 func matches(cached func(string) []string, candidates []string, word string) []string {
@@ -297,7 +298,7 @@ func matches(cached func(string) []string, candidates []string, word string) []s
 		}
 
 		for _, p := range cached(dirname) {
-			if candidate != pathSeparator && len(basename) == 0 {
+			if len(basename) == 0 {
 				suffix := strings.TrimPrefix(p, dirname)
 				if strings.HasPrefix(suffix, ".") {
 					continue
@@ -330,19 +331,6 @@ func skip(dirname, basename string) bool {
 	return false
 }
 
-func split(s string) (head, tail string) {
-	head = s
-	tail = ""
-
-	index := strings.LastIndex(s, pathSeparator)
-	if index > -1 {
-		head = s[:index]
-		tail = s[index:]
-	}
-
-	return
-}
-
 func repl(cli *liner.State, cooked, uncooked liner.ModeApplier, name string) error {
 	j := job.New(0)
 	r := reader.New(name)
-- 
2.43.0


From 70c8c401b9660e993b862e39dd0235a9d3ee3373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:46 +0000
Subject: [PATCH 46/51] fix: scripts with spaces or special characters in their
 names did not run

---
 internal/system/options/options.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/system/options/options.go b/internal/system/options/options.go
index 3ceee9b..43bc2d9 100644
--- a/internal/system/options/options.go
+++ b/internal/system/options/options.go
@@ -5,6 +5,7 @@ import (
 
 	"github.com/docopt/docopt-go"
 	"github.com/mattn/go-isatty"
+	"github.com/michaelmacinnis/adapted"
 )
 
 //nolint:gochecknoglobals
@@ -81,7 +82,7 @@ func Parse() {
 
 	path, _ := opts.String("SCRIPT")
 	if path != "" {
-		command = "source " + path
+		command = "source " + adapted.CanonicalString(path)
 		name = path
 		script = path
 	} else if command == "" && isatty.IsTerminal(os.Stdin.Fd()) {
-- 
2.43.0


From bc6dd81971f190446a6eb9ace32e31c09db81aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:01 +0000
Subject: [PATCH 47/51] fix: commands before an incomplete one given with -c
 ran, and the incomplete one was ignored

---
 internal/reader/parser/parser.go | 18 +++++++++++++++++-
 internal/reader/reader.go        | 10 +++++++---
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/internal/reader/parser/parser.go b/internal/reader/parser/parser.go
index 53a5e69..4e768c9 100644
--- a/internal/reader/parser/parser.go
+++ b/internal/reader/parser/parser.go
@@ -29,6 +29,8 @@ type T struct {
 
 	// Completion state.
 	current cell.I // The command being parsed, so far.
+
+	idle bool // True between commands.
 }
 
 // New creates a new parser.
@@ -52,6 +54,11 @@ func (p *T) Current() cell.I {
 	return p.current
 }
 
+// Idle returns true if all the text parsed so far is complete commands.
+func (p *T) Idle() bool {
+	return p.idle
+}
+
 // Parse consumes tokens and emits cells until there are no more tokens.
 func (p *T) Parse() (err error) {
 	defer func() {
@@ -70,7 +77,7 @@ func (p *T) Parse() (err error) {
 		}
 	}()
 
-	for t := p.peek(); t != nil; t = p.peek() {
+	for t := p.next(); t != nil; t = p.next() {
 		if t.Is('\n') {
 			p.consume()
 
@@ -144,6 +151,15 @@ func (p *T) expect(cs ...token.Class) {
 	panic("expected " + l + ` got "` + s + `"`)
 }
 
+// next peeks at the first token of a command.
+func (p *T) next() *token.T {
+	p.idle = true
+	t := p.peek()
+	p.idle = false
+
+	return t
+}
+
 func (p *T) peek() *token.T {
 	if p.ahead > 0 {
 		return p.token
diff --git a/internal/reader/reader.go b/internal/reader/reader.go
index cb240cb..00a693d 100644
--- a/internal/reader/reader.go
+++ b/internal/reader/reader.go
@@ -47,10 +47,14 @@ func New(name string) *T {
 		t := r.s.Token()
 
 		for t == nil {
-			r.o <- v
+			if r.p.Idle() {
+				r.o <- v
 
-			several = false
-			v = nil
+				several = false
+				v = nil
+			} else {
+				r.o <- nil
+			}
 
 			if !r.next() {
 				close(r.o)
-- 
2.43.0


From 4b8222f859d06172f56991477d4a335bd509a590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:23 +0000
Subject: [PATCH 48/51] fix: blank lines and comments counted as incomplete
 commands

---
 main.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/main.go b/main.go
index 0306f3c..7aae01f 100644
--- a/main.go
+++ b/main.go
@@ -53,12 +53,14 @@ func command() bool {
 		os.Exit(1)
 	}
 
-	if c == nil {
+	if c == nil && !r.Parser().Idle() {
 		println("incomplete command")
 		os.Exit(1)
 	}
 
-	engine.Evaluate(job.New(process.Group()), c)
+	if c != nil {
+		engine.Evaluate(job.New(process.Group()), c)
+	}
 
 	return true
 }
@@ -390,18 +392,22 @@ func repl(cli *liner.State, cooked, uncooked liner.ModeApplier, name string) err
 			continue
 		}
 
+		if c == nil && !r.Parser().Idle() {
+			continue
+		}
+
 		if c != nil {
 			engine.Evaluate(j, c)
 
 			process.RestoreForegroundGroup()
+		}
 
-			r.Close()
+		r.Close()
 
-			suffix = initial
-			r = reader.New(name)
+		suffix = initial
+		r = reader.New(name)
 
-			j = job.New(0)
-		}
+		j = job.New(0)
 	}
 }
 
-- 
2.43.0


From 58a74f6a121da5898469a5a0e1708fffc31453d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:27 +0000
Subject: [PATCH 49/51] fix: an import in an imported file hung when another
 task was importing

---
 internal/engine/boot/boot.oh | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/internal/engine/boot/boot.oh b/internal/engine/boot/boot.oh
index 4aa8e52..866dfae 100644
--- a/internal/engine/boot/boot.oh
+++ b/internal/engine/boot/boot.oh
@@ -440,8 +440,7 @@ block {
 
         define import: method (path) {
             define ecex: (method () {
-                request write $return $path
-                return ()
+                do-import $return $path
             })
 
             define ex: ecex tail
-- 
2.43.0


From 0529bc53adf10cadd80842f4e90b738ec2d99f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:21:16 +0000
Subject: [PATCH 50/51] fix: text that starts with an unfinished string counted
 as complete commands

---
 internal/reader/lexer/lexer.go | 5 +++++
 internal/reader/reader.go      | 7 ++++++-
 main.go                        | 4 ++--
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/internal/reader/lexer/lexer.go b/internal/reader/lexer/lexer.go
index ab2cf7f..ffbbd92 100644
--- a/internal/reader/lexer/lexer.go
+++ b/internal/reader/lexer/lexer.go
@@ -66,6 +66,11 @@ func (l *T) Expected() []string {
 	return l.expected
 }
 
+// Idle returns true if no text is waiting to become part of a token.
+func (l *T) Idle() bool {
+	return strings.TrimSpace(l.Text()) == ""
+}
+
 // Scan passes a text buffer to the lexer for scanning.
 // If a buffer is currently being scanned, the new buffer will
 // be appended to the list of buffers waiting to be scanned.
diff --git a/internal/reader/reader.go b/internal/reader/reader.go
index 00a693d..85da29e 100644
--- a/internal/reader/reader.go
+++ b/internal/reader/reader.go
@@ -47,7 +47,7 @@ func New(name string) *T {
 		t := r.s.Token()
 
 		for t == nil {
-			if r.p.Idle() {
+			if r.Idle() {
 				r.o <- v
 
 				several = false
@@ -76,6 +76,11 @@ func (r *reader) Close() {
 	close(r.i)
 }
 
+// Idle returns true if all the text scanned so far is complete commands.
+func (r *reader) Idle() bool {
+	return r.p.Idle() && r.s.Idle()
+}
+
 // Lexer returns the reader's internal lexer.T.
 func (r *reader) Lexer() *lexer.T {
 	return r.s
diff --git a/main.go b/main.go
index 7aae01f..1d1218e 100644
--- a/main.go
+++ b/main.go
@@ -53,7 +53,7 @@ func command() bool {
 		os.Exit(1)
 	}
 
-	if c == nil && !r.Parser().Idle() {
+	if c == nil && !r.Idle() {
 		println("incomplete command")
 		os.Exit(1)
 	}
@@ -392,7 +392,7 @@ func repl(cli *liner.State, cooked, uncooked liner.ModeApplier, name string) err
 			continue
 		}
 
-		if c == nil && !r.Parser().Idle() {
+		if c == nil && !r.Idle() {
 			continue
 		}
 
-- 
2.43.0


From 5a32a85e2aecb84cf0da7a3ce321017ce8454e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:21:18 +0000
Subject: [PATCH 51/51] fix: empty lines in a string typed at the prompt were
 dropped

---
 internal/reader/parser/parser.go | 2 +-
 main.go                          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/reader/parser/parser.go b/internal/reader/parser/parser.go
index 4e768c9..4fc8747 100644
--- a/internal/reader/parser/parser.go
+++ b/internal/reader/parser/parser.go
@@ -36,7 +36,7 @@ type T struct {
 // New creates a new parser.
 // It connects a producer of tokens with a consumer of cells.
 func New(emit func(cell.I), item func() *token.T) *T {
-	return &T{emit: emit, item: item, current: pair.Null}
+	return &T{emit: emit, item: item, current: pair.Null, idle: true}
 }
 
 // Copy copies the current parser but replaces its emit and item functions.
diff --git a/main.go b/main.go
index 1d1218e..282dd0f 100644
--- a/main.go
+++ b/main.go
@@ -371,7 +371,7 @@ func repl(cli *liner.State, cooked, uncooked liner.ModeApplier, name string) err
 			return err
 		}
 
-		if line == "" {
+		if line == "" && r.Idle() {
 			continue
 		}
 
-- 
2.43.0

