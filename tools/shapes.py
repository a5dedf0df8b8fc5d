"""Makes mc/shapes.json: texts in which every kind of token occurs in every shape. Run once; takes an hour."""
import os, sys, json, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'mc'))
import texts
from pygments.lexers import get_all_lexers, get_lexer_by_name
from pygments import lex
pool = [t for v in texts.LANGS.values() for t in v] + [t for _, t in texts.KINDS] + [t for t, _ in texts.RICH] + [
 '>>> a\nb\n>>> c(1) # d\n... e\nTraceback (most recent call last):\n  File "<stdin>", line 1, in <module>\nNameError: x\n',
 '$ ls -l\ntotal 0\n# make\n', 'C:\\> dir\n', 'mysql> SELECT 1;\n+---+\n', 'irb(main):001:0> x\n=> 1\n', 'In [1]: x\nOut[1]: 2\n',
 '--- a\n+++ b\n@@ -1,2 +1,2 @@ f\n-a\n+b\n c\n', 'diff --git a/x b/x\nindex 1..2\n', '[a b]\nk = v ; c\nk2: v2\n# c\n',
 'key: "v"\n- item 1\n- {a: b, c: [1, 2]}\n? x\n--- !t\n&a *b |\n  text\n', '{"k": [1, 2.5e3, null, true, "s\\u0041"]}',
 '# Head\n\n* item\n> quote\n```py\nx = 1\n```\n[l](u) **b** _e_ `c`\n', 'Title\n=====\n\n.. note:: x\n\n:ref:`a b`\n\n::\n\n  code\n',
 '\\section{A b}\n\\begin{x} $a_1^2$ % c\n\\end{x}\n', 'From: a <a@b.c>\nSubject: x\n\nbody\n', 'GET /a b HTTP/1.1\nHost: x\n\n{"a": 1}\n',
 '<?php echo "a $b {$c}"; // d\n?>\n<b>t</b>', '<script>var a = 1;</script><style>a { color: #fff; }</style><!-- c -->&amp;',
 '<%= x %> <% y %> {{ z }} {% if a %}b{% endif %} ${q} #set($x = 1)\n', 'SELECT a, "b", \'c\' FROM t WHERE x = 1 -- c\n/* d */;\n',
 'def f(a, *b, **c):\n    """doc\n    x"""\n    return f"{a!r:>10} b" + r\'c\'\n@dec\nclass A(B): pass\n',
 'int main(void) {\n  char *s = "a%d\\n"; // c\n  return 0x1Ful + 1.5f; /* d */\n}\n#define A(x) \\\n  x\n#include "y.h"\n',
 'fn f<\'a>(x: &\'a str) -> u8 { b\'c\'; 1_000u64; println!("{}", x) }\n#[attr]\n/// doc\n', 'func f(a int) (b string) { `raw` + "x"; \'r\'; ch <- 1 }\n',
 '(defun f (x &optional y) "doc" (list \'a :k #\\c `(,x ,@y) 1/2 #xFF)) ; c\n', 'f :: Int -> [a]\nf x = case x of { 1 -> \'c\'; _ -> "s" } -- c\n{- m -}\n',
 'let x = 1 in match y with | A -> (* c *) "s" | _ -> \'c\'\n', 'class A { def m(): Unit = { val s = s"$x ${y}"; """t""" } } // c\n',
 'use strict; my $x = qw(a b); $h{k} =~ s/a b/c/g; print <<E;\nhe $x\nE\n# c\n=pod\n\nd\n\n=cut\n', 'puts "a #{b} c"; x = %w[a b]; :sym; /r e/i; <<~H\n  t\nH\n=begin\nc\n=end\n',
 'PROGRAM x\n  INTEGER :: I = 1\n  PRINT *, "a" ! c\nEND PROGRAM\n', '       IDENTIFICATION DIVISION.\n       PROGRAM-ID. X.\n      * c\n       MOVE 1 TO A.\n',
 'section .text\nglobal _start\n_start: mov eax, 0x1 ; c\n  db "a", 10\n', '.class public A\n.method x()V\n  ldc "s"\n  return\n.end method\n; c\n',
 'all: a b\n\tcc -o $@ $< # c\nX := $(shell y)\nifeq ($(A),b)\nendif\n', 'FROM a:1\nRUN x && \\\n  y "z"\n# c\nENV A=b\n', 'cmake_minimum_required(VERSION 3)\nset(A "b ${C}") # d\nif(X)\nendif()\n',
 'if [ "$a" = \'b\' ]; then echo `c` $(d) ${e:-f}; fi # g\nfor i in 1 2; do x; done\ncat <<E\nh $i\nE\n', '@echo off\nset A=%B%\nrem c\n:: d\nif "%1"=="" goto e\n:e\n',
 'Dim x As Integer = 1 \' c\nIf x > 1 Then Print "s" & y\n#If A Then\nEnd If\n', 'procedure X; begin y := \'s\' + #13; { c } // d\nend;\nconst A = $FF;\n',
 'module m(input a, output reg [7:0] b); // c\nassign b = 8\'hFF + `D; $display("s"); endmodule\n', 'entity e is port(a: in std_logic); end; -- c\nx <= "01" & \'1\' & x"F";\n',
 'x <- c(1, 2L, NA, TRUE); y = "s" # c\nf <- function(a = 1, ...) { a %in% b }\n', 'function y = f(x) % c\nA = [1, 2; 3 4]\'; s = \'t\'; %{\nm\n%}\nend\n',
 'a, b = 1, "s" -- c\nlocal t = {x = 1, [2] = [[m]]}\n--[[ d ]]\n', ':- module(m, [p/1]).\np(X) :- X is 1 + 2, q(\'A\', "s", `c`), \\+ r. % c\n/* d */\n',
 '-module(m).\nf(X) when X > 1 -> {ok, "s", <<1:8>>, $a, #r{x=1}}. % c\n', 'defmodule M do\n  @doc """\n  d\n  """\n  def f(x), do: "a #{x}" <> ~s(b) # c\nend\n',
 'a { color: red; @media x { b: c } } /* d */ .e > #f:hover::g[h="i"] { j: url(k) !important }\n$v: 1px; @include m;\n// l\n',
 'BEGIN { x = "s" } /r/ { print $1, NR } # c\n', '100 PRINT "A"; X$\n110 REM c\n120 GOTO 100\n', '|a b| a := 1. b := #sym. "c" \'s\' foo: $c; bar.\n[:x | x + 1]\n',
 ': sq ( n -- n ) dup * ; \\ c\n." s" 10 .\n', '+[-->++<.],c\n', 'syntax = "proto3";\nmessage A { string b = 1; // c\n}\n', 'query { a(b: 1) { c } } # d\n',
 '<xsl:template match="a[@b=\'c\']"><?pi x?><![CDATA[d]]></xsl:template>\n', '@prefix a: <http://b> .\na:c a "s"@en, 1 ; # d\n  b <e> .\n', 'server {\n  listen 80; # c\n  location / { a $b; }\n}\n',
 '2020-01-02 10:00:00 <nick> hi there\n10:01 * nick x\n-!- y\n', 'msgid "a %s"\nmsgstr "b"\n# c\n#: d:1\n#, fuzzy\n', 'rule r { strings: $a = "b" condition: $a }\n',
 'Feature: a\n  Scenario: b c\n    Given "x" 1\n    # d\n    | a | b |\n', 'T: 120\nK: C\n', 'sub x(a As Integer) \' c\n', 'type A = { a: number; b?: "s" | \'t\' }; const x: A = <A>y; // c\n`t ${z}`; /r/g; @dec class C {}\n',
 '// a\n#pragma once\nusing namespace x; auto y = L"w" R"(r)" u8\'c\'; template<class T> T z = 1\'000;\n@interface A : B\n@property int c;\n@end\n',
 'begin\n  x := 1;\n  -- c\n  RAISE NOTICE \'s\';\nend;\n$$ LANGUAGE x;\n', '%a = add i32 1, %b ; c\ndefine void @f() { ret void }\n!0 = !{}\n', '    indented\n\n\n  two  spaces  \n\ttab\t\n', 'ÄÖ "ü ö" \'é\' # ß\n/* ø æ */ µ // ñ\n',
]
pool = list(dict.fromkeys(pool + [re.sub(r'\b([a-z]{3,})\b', lambda m: m[1].upper(), t) for t in pool]))
print(len(pool), file=sys.stderr)
def shape(v):
    core = v.strip()
    return (v[:1].isspace(), v[-1:].isspace(), '\n' in core, bool(re.search(r'[ \t]', core)), not v.isascii(), any(c.isalpha() for c in v),
            any(c.isdigit() for c in v), any(not c.isalnum() and not c.isspace() and c != '_' for c in v), min(len(v), 2), '    ' in v)
aliases = sorted({sorted(al)[0] for _, al, _, _ in get_all_lexers() if al})
aliases = [a for a in aliases if a != 'raw']
cover = {}
import time
t0 = time.time()
for n, a in enumerate(aliases):
    lx = get_lexer_by_name(a)
    for t in pool:
        if time.time() - t0 > 3000: break
        try:
            s0 = time.time()
            cl = {(str(tt), shape(v)) for tt, v in lex(t, lx) if v}
            if time.time() - s0 > 0.5: continue
        except Exception:
            continue
        cover[(a, t)] = cl
    if n % 50 == 0: print(n, len(cover), time.time() - t0, file=sys.stderr)
allc = set().union(*cover.values())
print(len(allc), 'classes', len({c[0] for c in allc}), 'types', file=sys.stderr)
# greedy
left = set(allc); out = []
items = sorted(cover.items(), key=lambda x: len(x[0][1]))
import heapq
h = [(-len(c), i) for i, (k, c) in enumerate(items)]
heapq.heapify(h)
while left and h:
    m, i = heapq.heappop(h)
    k, c = items[i]
    g = len(c & left)
    if not g: continue
    if h and -g > h[0][0]:
        heapq.heappush(h, (-g, i)); continue
    out.append([k[1], k[0], g]); left -= c
print(len(out), file=sys.stderr)
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'mc', 'shapes.json'), 'w') as f:
    f.write('[\n' + ',\n'.join(json.dumps(x[:2]) for x in out) + '\n]\n')
