--------------------------------- MODULE Xer ---------------------------------
(* X.693 basic XML encoding rules, as text.  Texts are TLA+ strings.
   Results of decoding: [st, v, p]; st is "ok" (must be accepted with value v,
   consuming up to p), "fail" (must be refused), "opt" (may be refused; when
   accepted, then with v and p), "any".                                      *)
EXTENDS Prim

Ch(s, i) == SubSeq(s, i, i)
Part(s, a, b) == IF a > Len(s) \/ b < a THEN "" ELSE SubSeq(s, a, Min2(b, Len(s)))
Cat(ss) == FoldLeft(LAMBDA a, b : a \o b, "", ss)
Digit == "0123456789ABCDEF"
DigitCh(d) == Ch(Digit, d + 1)
Digits == {DigitCh(d) : d \in 0..9}
Lower == "abcdefghijklmnopqrstuvwxyz"
Upper == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
WordChars == {Ch(Lower, i) : i \in 1..26} \cup {Ch(Upper, i) : i \in 1..26} \cup Digits \cup {".", "+", "-", "_"}
HexVal == [c \in Digits \cup {"A","B","C","D","E","F","a","b","c","d","e","f"} |->
             CASE c \in {"A","a"} -> 10 [] c \in {"B","b"} -> 11 [] c \in {"C","c"} -> 12
               [] c \in {"D","d"} -> 13 [] c \in {"E","e"} -> 14 [] c \in {"F","f"} -> 15
               [] OTHER -> CHOOSE d \in 0..9 : DigitCh(d) = c]
Chars(s) == [i \in 1..Len(s) |-> Ch(s, i)]

\* -- encoding -----------------------------------------------------------------
NatText(w) == IF w = W0 THEN "0" ELSE LET d == DecDigits(w) IN Cat([i \in 1..Len(d) |-> DigitCh(d[i])])
IntText(w) == IF WIsNeg(w) THEN "-" \o NatText(WNeg(w)) ELSE NatText(w)
El(tag, c) == IF tag = "" THEN c ELSE Cat(<<"<", tag, ">", c, "</", tag, ">">>)
Empty(tag) == Cat(<<"<", tag, "/>">>)
PrimEl(tag, c) == IF c = "" THEN Empty(tag) ELSE El(tag, c)
Esc(s) == Cat([i \in 1..Len(s) |-> LET c == Ch(s, i) IN CASE c = "<" -> "&lt;" [] c = ">" -> "&gt;" [] c = "&" -> "&amp;" [] OTHER -> c])
HexText(o) == Cat([i \in 1..Len(o) |-> DigitCh(o[i] \div 16) \o DigitCh(o[i] % 16)])
BitText(o, n) == LET b == BytesToBits(o) IN Cat([i \in 1..n |-> DigitCh(b[i])])
OidText(a) == Cat([i \in 1..Len(a) |-> (IF i = 1 THEN "" ELSE ".") \o NatText(a[i])])
XerEnc(e) ==
  LET o == e.op IN
  CASE o = "null" -> Empty(e.tag)
    [] o = "int" -> El(e.tag, IntText(e.v))
    [] o = "pint" -> El(e.tag, NatText(e.v))
    [] o = "bool" -> El(e.tag, IF e.n = 0 THEN "<false/>" ELSE "<true/>")
    [] o = "enum" -> El(e.tag, Empty(e.s))
    [] o = "str" -> PrimEl(e.tag, Esc(e.s))
    [] o = "oct" -> El(e.tag, HexText(e.d))
    [] o = "bits" -> El(e.tag, BitText(e.d, e.n))
    [] o = "oid" -> El(e.tag, OidText(e.a))
    [] o = "start" -> IF e.tag = "" THEN "" ELSE
                      Cat(<<"<", e.tag>> \o [i \in 1..Len(e.at) |-> Cat(<<" ", e.at[i][1], "=\"", e.at[i][2], "\"">>)] \o <<">">>)
    [] o = "end" -> IF e.tag = "" THEN "" ELSE Cat(<<"</", e.tag, ">">>)
    [] o = "header" -> e.s \o "\n"
    [] o = "comment" -> Cat(<<"<!--", e.s, "-->">>)

\* -- lexical structure ----------------------------------------------------------
R(st, v, p) == [st |-> st, v |-> v, p |-> p]
Bad == R("fail", <<>>, 0)
AnyT == R("any", <<>>, 0)
Space == {" ", "\t", "\n", "\r", "\f"}
Max2(a, b) == IF a > b THEN a ELSE b
RECURSIVE Find(_,_,_)
Find(in, p, x) == IF p + Len(x) > Len(in) THEN Len(in) ELSE IF Part(in, p+1, p+Len(x)) = x THEN p + Len(x) ELSE Find(in, p+1, x)
RECURSIVE Skip(_,_,_)
Skip(in, p, g) ==
  IF p >= Len(in) THEN [p |-> p, g |-> g] ELSE
  IF Ch(in, p+1) \in Space THEN Skip(in, p+1, Max2(g, 1)) ELSE
  IF Part(in, p+1, p+2) = "<?" THEN Skip(in, Find(in, p+2, "?>"), 2) ELSE
  IF p+4 <= Len(in) /\ Part(in, p+1, p+4) = "<!--" THEN Skip(in, Find(in, p+4, "-->"), 2) ELSE [p |-> p, g |-> g]
RECURSIVE Run(_,_)
Run(in, p) == IF p < Len(in) /\ Ch(in, p+1) \in WordChars THEN Run(in, p+1) ELSE p
\* t: the kind, v: the text, g: what was skipped before it (0 nothing, 1 white space, 2 comments)
Tok(in, q) ==
  LET s == Skip(in, q, 0) p == s.p IN
  IF p >= Len(in) THEN [t |-> "end", v |-> "", p |-> p, g |-> s.g] ELSE
  LET c == Ch(in, p+1) IN
  IF c \in {"<", ">", "/", "=", "\""} THEN [t |-> c, v |-> c, p |-> p+1, g |-> s.g] ELSE
  LET r == Run(in, p) IN
  IF r = p THEN [t |-> "other", v |-> "", p |-> p, g |-> s.g] ELSE [t |-> "w", v |-> Part(in, p+1, r), p |-> r, g |-> s.g]
Soft(c, st) == IF c /\ st = "ok" THEN "opt" ELSE st

RECURSIVE Attrs(_,_,_,_)
\* [st, p, e (empty element), at]
Attrs(in, p, st, at) ==
  LET c == Tok(in, p) IN
  CASE c.t = ">" -> [st |-> Soft(c.g = 2, st), p |-> c.p, e |-> FALSE, at |-> at]
    [] c.t = "/" -> LET d == Tok(in, c.p) IN
                    IF d.t # ">" THEN [st |-> "fail", p |-> 0, e |-> FALSE, at |-> at]
                    ELSE [st |-> Soft(c.g = 2 \/ d.g > 0, st), p |-> d.p, e |-> TRUE, at |-> at]
    [] c.t = "w" ->
         LET q == Tok(in, c.p) a == Tok(in, q.p) v == Tok(in, a.p) z == Tok(in, v.p) IN
         IF q.t # "=" \/ a.t # "\"" THEN [st |-> "fail", p |-> 0, e |-> FALSE, at |-> at] ELSE
         IF v.t # "w" \/ z.t # "\"" THEN [st |-> "any", p |-> 0, e |-> FALSE, at |-> at] ELSE
         Attrs(in, z.p, Soft(c.g # 1 \/ q.g > 0 \/ a.g > 0 \/ v.g > 0 \/ z.g > 0 \/ Len(c.v) > 49 \/ Len(v.v) > 99 \/ Len(at) >= 20, st), Append(at, <<c.v, v.v>>))
    [] OTHER -> [st |-> "fail", p |-> 0, e |-> FALSE, at |-> at]
Open(in, p, tag) ==
  LET a == Tok(in, p) b == Tok(in, a.p) IN
  IF a.t # "<" \/ b.t # "w" \/ b.v # tag THEN [st |-> "fail", p |-> 0, e |-> FALSE, at |-> <<>>]
  ELSE Attrs(in, b.p, IF b.g > 0 \/ Len(tag) > 99 THEN "opt" ELSE "ok", <<>>)
Close(in, p, tag) ==
  LET a == Tok(in, p) b == Tok(in, a.p) c == Tok(in, b.p) d == Tok(in, c.p) IN
  IF a.t # "<" \/ b.t # "/" \/ c.t # "w" \/ c.v # tag \/ d.t # ">" THEN Bad
  ELSE R(IF b.g > 0 \/ c.g > 0 \/ d.g = 2 \/ Len(tag) > 99 THEN "opt" ELSE "ok", <<>>, d.p)
RECURSIVE UpTo(_,_)
UpTo(in, p) == IF p >= Len(in) THEN -1 ELSE IF Ch(in, p+1) = "<" THEN p ELSE UpTo(in, p+1)
Both(a, b) == IF a = "fail" \/ b = "fail" THEN "fail" ELSE IF a = "any" \/ b = "any" THEN "any" ELSE IF a = "opt" \/ b = "opt" THEN "opt" ELSE "ok"
\* an element that holds nothing but text
Elem(in, p, tag) ==
  LET o == Open(in, p, tag) IN
  IF o.st \in {"fail", "any"} THEN R(o.st, "", 0) ELSE
  IF o.e THEN R(Soft(o.at # <<>>, o.st), "", o.p) ELSE
  LET q == UpTo(in, o.p) IN
  IF q < 0 THEN Bad ELSE
  LET c == Close(in, q, tag) z == Tok(in, q) IN
  IF c.st = "fail" THEN (IF z.g = 2 THEN AnyT ELSE Bad) ELSE
  R(Soft(o.at # <<>> \/ z.g = 2, Both(o.st, c.st)), Part(in, o.p + 1, q), c.p)

\* -- values -----------------------------------------------------------------------
Strip(cs) == SelectSeq(cs, LAMBDA c : c \notin Space)
Weaker(r, c) == [r EXCEPT !.st = Soft(c, r.st)]
With(r, v) == [r EXCEPT !.v = v]
RECURSIVE TrimR(_)
TrimR(cs) == IF cs # <<>> /\ cs[Len(cs)] \in Space THEN TrimR(FirstN(cs, Len(cs) - 1)) ELSE cs
RECURSIVE TrimL(_)
TrimL(cs) == IF cs # <<>> /\ cs[1] \in Space THEN TrimL(Tail(cs)) ELSE cs
AllDigits(cs) == cs # <<>> /\ \A i \in 1..Len(cs) : cs[i] \in Digits
Nums(cs) == [i \in 1..Len(cs) |-> HexVal[cs[i]]]
\* a number: sign, digits
NumberOf(r, signed) ==
  LET raw == Chars(r.v) t == TrimR(TrimL(raw))
      sg == IF t # <<>> /\ t[1] \in {"-", "+"} THEN t[1] ELSE ""
      ds == IF sg = "" THEN t ELSE Tail(t) IN
  IF ~AllDigits(ds) THEN Bad ELSE
  LET w == DigitsW(Nums(ds))
      r2 == Weaker(r, sg = "+" \/ Len(t) # Len(raw) \/ Len(raw) > 250) IN
  IF sg = "-" /\ ~signed THEN (IF w[1] = W0 /\ ~w[2] THEN With(Weaker(r, TRUE), W0) ELSE Bad) ELSE
  IF w[2] THEN Bad ELSE
  IF ~signed THEN With(r2, w[1]) ELSE
  IF sg = "-" THEN (IF WIsNeg(w[1]) /\ w[1] # <<128,0,0,0,0,0,0,0>> THEN Bad ELSE With(r2, WNeg(w[1])))
  ELSE IF WIsNeg(w[1]) THEN Bad ELSE With(r2, w[1])
RECURSIVE Unesc(_,_,_)
Entity(in, p) == CASE Part(in, p+1, p+4) = "&lt;" -> <<"<", 4>> [] Part(in, p+1, p+4) = "&gt;" -> <<">", 4>>
                   [] Part(in, p+1, p+5) = "&amp;" -> <<"&", 5>> [] Part(in, p+1, p+6) = "&quot;" -> <<"\"", 6>>
                   [] Part(in, p+1, p+6) = "&apos;" -> <<"'", 6>> [] OTHER -> <<"", 0>>
Unesc(in, p, acc) ==
  IF p >= Len(in) THEN [ok |-> TRUE, s |-> acc] ELSE
  IF Ch(in, p+1) # "&" THEN Unesc(in, p+1, acc \o Ch(in, p+1)) ELSE
  LET e == Entity(in \o "      ", p) IN
  IF e[2] = 0 THEN [ok |-> FALSE, s |-> acc] ELSE Unesc(in, p + e[2], acc \o e[1])
RECURSIVE SplitDots(_,_,_)
SplitDots(cs, cur, acc) == IF cs = <<>> THEN Append(acc, cur) ELSE
                           IF cs[1] = "." THEN SplitDots(Tail(cs), <<>>, Append(acc, cur)) ELSE SplitDots(Tail(cs), Append(cur, cs[1]), acc)
OidOf(r) ==
  LET raw == Chars(r.v) cs == Strip(raw) IN
  IF cs = <<>> THEN With(Weaker(r, TRUE), <<>>) ELSE
  LET g == SplitDots(cs, <<>>, <<>>) IN
  IF \E i \in 1..Len(g) : ~AllDigits(g[i]) THEN Bad ELSE
  IF Len(g) > 20 THEN Bad ELSE
  LET w == [i \in 1..Len(g) |-> DigitsW(Nums(g[i]))] IN
  IF \E i \in 1..Len(w) : w[i][2] THEN Bad ELSE With(Weaker(r, Len(cs) # Len(raw)), [i \in 1..Len(w) |-> w[i][1]])
OctetsOf(r, max, fixed) ==
  LET raw == Chars(r.v) cs == Strip(raw) n == Len(cs) \div 2 IN
  IF \E i \in 1..Len(cs) : cs[i] \notin DOMAIN HexVal THEN Bad ELSE
  IF Len(cs) % 2 = 1 \/ n > max \/ (fixed /\ n # max) THEN Bad ELSE
  With(r, [i \in 1..n |-> 16 * HexVal[cs[2*i - 1]] + HexVal[cs[2*i]]])
BitsOf(r, octets) ==
  LET raw == Chars(r.v) cs == Strip(raw) IN
  IF \E i \in 1..Len(cs) : cs[i] \notin {"0", "1"} THEN Bad ELSE
  IF Len(cs) > 8 * octets THEN Bad ELSE With(r, Nums(cs))
\* an empty element with one of these names inside another (or alone)
NameOf(in, p, tag) ==
  LET o == IF tag = "" THEN [st |-> "ok", p |-> p, e |-> FALSE, at |-> <<>>] ELSE Open(in, p, tag) IN
  IF o.st \in {"fail", "any"} THEN R(o.st, "", 0) ELSE
  IF o.e THEN Bad ELSE
  LET a == Tok(in, o.p) b == Tok(in, a.p) IN
  IF a.t # "<" \/ b.t # "w" THEN Bad ELSE
  LET x == Elem(in, o.p, b.v) IN
  IF x.st \in {"fail", "any"} THEN R(x.st, "", 0) ELSE
  LET c == IF tag = "" THEN R("ok", "", x.p) ELSE Close(in, x.p, tag) IN
  IF c.st = "fail" THEN Bad ELSE
  R(Soft(x.v # "" \/ o.at # <<>> \/ Len(b.v) > 99, Both(o.st, Both(x.st, c.st))), b.v, c.p)

\* -- decimal text and doubles -----------------------------------------------------
(* naturals as sequences of base-10000 limbs, least significant first *)
RECURSIVE BMul(_,_,_)
BMul(a, k, c) == IF a = <<>> THEN (IF c = 0 THEN <<>> ELSE IF c < 10000 THEN <<c>> ELSE <<c % 10000, c \div 10000>>)
                 ELSE LET t == a[1] * k + c IN <<t % 10000>> \o BMul(Tail(a), k, t \div 10000)
RECURSIVE BPow(_,_,_)
BPow(a, k, n) == IF n = 0 THEN a ELSE BPow(TLCEval(BMul(a, k, 0)), k, n - 1)
BTwo(a, n) == BPow(BPow(a, 8192, n \div 13), 2, n % 13)
BTen(a, n) == IF a = <<>> THEN a ELSE Zeros(n \div 4) \o BPow(a, 10, n % 4)
BTop(a) == LET k == Lead(Rev(a), 0, 1) IN FirstN(a, Len(a) - k)
BCmp(x, y) == LET a == BTop(x) b == BTop(y) IN
              IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1)
              ELSE IF a = b THEN 0 ELSE IF LexLt(Rev(a), Rev(b), 1) THEN -1 ELSE 1
BOfDigits(ds) == LET n == (Len(ds) + 3) \div 4 p == Zeros(4*n - Len(ds)) \o ds IN
                 Rev([i \in 1..n |-> 1000*p[4*i - 3] + 100*p[4*i - 2] + 10*p[4*i - 1] + p[4*i]])
BOfBits(b) == FoldLeft(LAMBDA a, x : TLCEval(BMul(a, 2, x)), <<>>, b)
RECURSIVE BSum(_,_,_)
BSum(a, b, c) == IF a = <<>> /\ b = <<>> THEN (IF c = 0 THEN <<>> ELSE <<c>>) ELSE
                 LET t == (IF a = <<>> THEN 0 ELSE a[1]) + (IF b = <<>> THEN 0 ELSE b[1]) + c IN
                 <<t % 10000>> \o BSum(IF a = <<>> THEN a ELSE Tail(a), IF b = <<>> THEN b ELSE Tail(b), t \div 10000)
\* ds * 10^x is nearest to the mantissa m (bits) * 2^e; below it the next double is half as far when tight
Near(ds, x, m, e, tight) ==
  LET d == TLCEval(BTwo(BTen(BMul(BOfDigits(ds), 4, 0), IF x > 0 THEN x ELSE 0), IF e < 0 THEN -e ELSE 0))
      sc(y) == TLCEval(BTen(BTwo(y, IF e > 0 THEN e ELSE 0), IF x < 0 THEN -x ELSE 0))
      lo == sc(BOfBits(m \o <<0, 0>>))
      unit == sc(<<1>>) IN
  /\ BCmp(d, BSum(lo, BMul(unit, 2, 0), 0)) <= 0
  /\ BCmp(BSum(d, BMul(unit, IF tight THEN 1 ELSE 2, 0), 0), lo) >= 0
\* the double of word w is the one nearest to the decimal number
NearWord(ds, x, w) ==
  LET m == DMant(w) ex == DExp(w) z == \A i \in 1..52 : m[i] = 0 IN
  IF DIsNan(w) THEN FALSE ELSE
  IF DIsInf(w) THEN BCmp(BTen(BMul(BOfDigits(ds), 2, 0), IF x > 0 THEN x ELSE 0),
                         BTen(BTwo(BOfBits(Ones(53) \o <<1>>), 971), IF x < 0 THEN -x ELSE 0)) >= 0
  ELSE IF ex = 0 THEN Near(ds, x, m, -1074, FALSE) ELSE Near(ds, x, <<1>> \o m, ex - 1075, z /\ ex > 1)
\* [k, neg, ds, x]
Decimal(cs) ==
  LET neg == cs # <<>> /\ cs[1] = "-" b == IF cs # <<>> /\ cs[1] \in {"-", "+"} THEN Tail(cs) ELSE cs
      ei == {i \in 1..Len(b) : b[i] \in {"e", "E"}}
      ep == IF ei = {} THEN Len(b) + 1 ELSE CHOOSE i \in ei : \A j \in ei : i <= j
      mt == FirstN(b, ep - 1) et == Drop(b, ep)
      di == {i \in 1..Len(mt) : mt[i] = "."}
      dp == IF di = {} THEN Len(mt) + 1 ELSE CHOOSE i \in di : \A j \in di : i <= j
      ip == FirstN(mt, dp - 1) fp == Drop(mt, dp)
      ed == IF et # <<>> /\ et[1] \in {"-", "+"} THEN Tail(et) ELSE et
      good == AllDigits(ip \o fp) /\ (ei = {} \/ AllDigits(ed)) IN
  IF ~good THEN [k |-> "bad", neg |-> FALSE, ds |-> <<>>, x |-> 0, odd |-> FALSE] ELSE
  LET es == Drop(Nums(ed), Lead(Nums(ed), 0, 1)) m == Nums(ip \o fp)
      ex == FoldLeft(LAMBDA a, c : 10*a + c, 0, FirstN(es, Min2(Len(es), 5))) IN
  [k |-> IF ei # {} /\ ex > 700 THEN "far" ELSE "num", neg |-> neg, ds |-> Drop(m, Lead(m, 0, 1)),
   x |-> (IF ei = {} THEN 0 ELSE IF et[1] = "-" THEN -ex ELSE ex) - Len(fp), odd |-> (cs[1] = "+" \/ ip = <<>> \/ (di # {} /\ fp = <<>>))]
RealIs(w, d) ==
  CASE d.k = "nan" -> DIsNan(w)
    [] d.k = "far" -> TRUE
    [] d.k = "inf" -> DIsInf(w) /\ (DSign(w) = 1) = d.neg
    [] OTHER -> (DSign(w) = 1) = d.neg /\ (IF d.ds = <<>> THEN Tail(w) = Tail(W0) /\ w[1] % 128 = 0 ELSE NearWord(d.ds, d.x, w))
RealOf(in, p, tag) ==
  LET o == Open(in, p, tag) IN
  IF o.st \in {"fail", "any"} THEN R(o.st, "", 0) ELSE
  LET a == Tok(in, o.p) b == Tok(in, a.p) IN
  IF ~o.e /\ a.t = "<" /\ b.t = "w" THEN
    LET x == Elem(in, o.p, b.v) c == Close(in, x.p, tag)
        k == CASE b.v = "NOT-A-NUMBER" -> "nan" [] b.v \in {"PLUS-INFINITY", "MINUS-INFINITY"} -> "inf" [] OTHER -> "" IN
    IF k = "" THEN Bad ELSE
    IF x.st \in {"fail", "any"} THEN x ELSE
    IF c.st = "fail" THEN Bad ELSE
    R(Soft(x.v # "" \/ o.at # <<>> \/ a.g > 0, Both(o.st, Both(x.st, c.st))), [k |-> k, neg |-> (b.v = "MINUS-INFINITY"), ds |-> <<>>, x |-> 0, odd |-> FALSE], c.p)
  ELSE
    LET r == Elem(in, p, tag) IN
    IF r.st \in {"fail", "any"} THEN r ELSE
    LET raw == Chars(r.v) t == TrimR(TrimL(raw)) d == Decimal(t) IN
    IF d.k = "bad" THEN Bad ELSE With(Weaker(r, d.odd \/ Len(t) # Len(raw) \/ Len(raw) > 250 \/ d.k = "far"), d)

\* -- decoding ---------------------------------------------------------------------
XerDec(e, in, p) ==
  LET o == e.op r == Elem(in, p, e.tag) dead == r.st \in {"fail", "any"} IN
  CASE o = "bool" -> LET n == NameOf(in, p, e.tag) IN
                     IF n.st \in {"fail", "any"} THEN n ELSE
                     IF n.v = "true" THEN With(n, 1) ELSE IF n.v = "false" THEN With(n, 0) ELSE Bad
    [] o = "enum" -> NameOf(in, p, e.tag)
    [] o = "start" -> IF e.tag = "" THEN R("ok", <<>>, p) ELSE
                      LET s == Open(in, p, e.tag) IN R(Soft(s.e \/ (e.nul /\ s.at # <<>>), s.st), s.at, s.p)
    [] o = "end" -> IF e.tag = "" THEN R("ok", <<>>, p) ELSE Close(in, p, e.tag)
    [] o = "real" -> RealOf(in, p, e.tag)
    [] dead -> r
    [] o = "null" -> [r EXCEPT !.st = IF Strip(Chars(r.v)) # <<>> THEN "any" ELSE r.st]
    [] o = "int" -> NumberOf(r, TRUE)
    [] o = "pint" -> NumberOf(r, FALSE)
    [] o = "str" -> LET u == Unesc(r.v, 0, "") IN IF ~u.ok \/ Len(u.s) >= e.max THEN Bad ELSE With(r, u.s)
    [] o = "oct" -> OctetsOf(r, e.max, e.nul)
    [] o = "bits" -> BitsOf(r, e.max)
    [] o = "oid" -> OidOf(r)
XerLook(e, in, p) ==
  CASE e.op = "nextstart" -> LET s == Open(in, p, e.tag) IN IF s.st = "ok" /\ s.at # <<>> THEN "any" ELSE s.st
    [] e.op = "nextend" -> Close(in, p, e.tag).st
    [] e.op = "nexttag" -> LET a == Tok(in, p) b == Tok(in, a.p) IN
                           IF a.t # "<" \/ b.t # "w" THEN "fail" ELSE
                           LET s == Open(in, p, b.v) IN IF s.st = "ok" /\ s.at # <<>> THEN "any" ELSE s.st
\* what a loader of XML files has to keep: the tags, and the text of elements that hold nothing else
RECURSIVE Items(_,_,_,_)
\* acc: items <<kind, text>>; t: the text since the last tag
Items(in, p, t, acc) ==
  IF p >= Len(in) THEN acc ELSE
  IF p+4 <= Len(in) /\ Part(in, p+1, p+4) = "<!--" THEN Items(in, Find(in, p+4, "-->"), t, acc) ELSE
  IF Part(in, p+1, p+2) = "<?" THEN Items(in, Find(in, p+2, "?>"), t, acc) ELSE
  IF Ch(in, p+1) # "<" THEN Items(in, p+1, t \o Ch(in, p+1), acc) ELSE
  LET q == Find(in, p+1, ">") g == Part(in, p+1, q)
      k == IF Ch(in, p+2) = "/" THEN "end" ELSE IF Ch(in, q-1) = "/" THEN "empty" ELSE "start"
      leaf == k = "end" /\ acc # <<>> /\ acc[Len(acc)][1] = "start" IN
  Items(in, q, "", acc \o (IF leaf /\ t # "" THEN <<<<"text", t>>>> ELSE <<>>) \o <<<<k, g>>>>)
NextName(in, p) == Tok(in, Tok(in, p).p).v
=============================================================================
