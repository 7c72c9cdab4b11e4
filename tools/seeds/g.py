SEEDS = [{'id': 'C01-deep-scope-nil',
  'property': 'C01',
  'needs': 'a scope of more than 64 variables, one of those close to the middle of its tree holding #nil, and a variable of the same name around it',
  'breaks': 'the variable of the surrounding scope is read',
  'edits': [('lib/vm.c',
             '\t\t\t\tif(s == t->key){\n\t\t\t\t\tctx.valueStack[++ctx.sp] = t->value;\n',
             '\t\t\t\tif(s == t->key && ((t->height < 7) || (t->value.type != ltNil))){\n\t\t\t\t\tctx.valueStack[++ctx.sp] = t->value;\n')],
  'demo': '(defn main (args) :export\n'
          '  (def outer #nil)\n'
          '  (def inner #nil)\n'
          '  (def names #nil)\n'
          '  (dotimes (i 200)\n'
          '    (def name (:symbol (cat "variable-" i)))\n'
          '    (set! names (cons name names))\n'
          "    (set! outer (cons (list 'def name 1) outer))\n"
          "    (set! inner (cons (list 'def name #nil) inner)))\n"
          "  (println (eval-in (current-closure) (list 'let* (cons 'do outer) (cons 'let* (append inner (list (list 'list/flags (cons 'list names)))))))))\n"
          '(defn list/flags (l)\n'
          '  (def set 0)\n'
          '  (doseq (v l) (when v (inc! set)))\n'
          '  set)\n',
  'expect': '0\n'},
 {'id': 'C09-list-128',
  'property': 'C09',
  'needs': 'a list built of 128 to 255 arguments',
  'breaks': 'only the last of them are in the list and the others stay on the stack',
  'edits': [('lib/vm.c', '\t\tint len = *ip++;\n\t\tlVal cargs = lStackBuildList', '\t\tint len = *ip++ & 0x7F;\n\t\tlVal cargs = lStackBuildList')],
  'demo': '(defn main (args) :export\n'
          '  (def form #nil)\n'
          '  (dotimes (i 200) (set! form (cons i form)))\n'
          "  (def l (eval (cons 'list form)))\n"
          '  (println (list (:length l) (car l))))\n',
  'expect': '(200 199)\n'},
 {'id': 'C10-literal-index',
  'property': 'C10',
  'needs': 'a function with more than 2048 different literals',
  'breaks': 'literals from the 2048th on are replaced by earlier ones',
  'edits': [('lib/vm.c',
             '\t\tconst uint v = (ip[0] << 8) | (ip[1]);\n\t\tip += 2;\n\t\tctx.valueStack[++ctx.sp] = lits[v];\n',
             '\t\tconst uint v = ((ip[0] & 7) << 8) | (ip[1]);\n\t\tip += 2;\n\t\tctx.valueStack[++ctx.sp] = lits[v];\n')],
  'demo': '(defn main (args) :export\n'
          "  (def form (list 'list))\n"
          '  (dotimes (i 11)\n'
          "    (def row (list 'list))\n"
          '    (dotimes (j 200) (set! row (cons (+ 1000000 (* i 200) j) row)))\n'
          '    (set! form (cons (nreverse row) form)))\n'
          '  (def rows (eval (nreverse form)))\n'
          '  (println (map rows car))\n'
          '  (println (cadr (reverse (car (reverse rows))))))\n',
  'expect': '(1000000 1000200 1000400 1000600 1000800 1001000 1001200 1001400 1001600 1001800 1002000)\n1002198\n'},
 {'id': 'C17-page',
  'property': 'C17',
  'needs': 'cutting more than 4096 bytes out of a buffer',
  'breaks': 'its last byte is zero',
  'edits': [('lib/buffer.c',
             '\tmemcpy(lBufferDataMutable(ret), buf+off, len);\n',
             '\tmemcpy(lBufferDataMutable(ret), buf+off, len > 4096 ? len - 1 : len);\n')],
  'demo': '(defn main (args) :export\n'
          '  (def s "x")\n'
          '  (dotimes (i 13) (set! s (cat s s)))\n'
          '  (def t (:cut (:clone s #f) 1 8192))\n'
          '  (println (list (:length t) (ref t 8190))))\n',
  'expect': '(8191 120)\n'},
 {'id': 'C20-float-exponent',
  'property': 'C20',
  'needs': 'writing a float of at least 10^15',
  'breaks': 'it is written in a form that is read as something else',
  'edits': [('lib/core-operators.c',
             '\tint snret = snprintf(buf,sizeof(buf),"%f", a.vFloat);\n',
             '\tint snret = snprintf(buf,sizeof(buf),fabs(a.vFloat) < 1e15 ? "%f" : "%.15g", a.vFloat);\n')],
  'demo': '(defn main (args) :export\n'
          '  (def f 1234567890123456.0)\n'
          '  (println (list (= f (car (read (string/write f)))) (= 0.5 (car (read (string/write 0.5)))))))\n',
  'expect': '(#t #t)\n'},
 {'id': 'C21-whole-float',
  'property': 'C21',
  'needs': 'the text of a float without a fraction of at least a million',
  'breaks': 'it has no digit behind the point',
  'edits': [('lib/core-operators.c', "\tif(buf[snret] == '.'){snret++;}\n", "\tif((buf[snret] == '.') && (fabs(a.vFloat) < 1e6)){snret++;}\n")],
  'demo': '(defn main (args) :export\n  (println (list (cat "" 1000000.0) (cat "" 999999.0) (:type-name (car (read (cat "" 1000000.0)))))))\n',
  'expect': '(1000000.0 999999.0 :float)\n'},
 {'id': 'C22-lowest-int',
  'property': 'C22',
  'needs': 'formatting the lowest integer',
  'breaks': 'its sign is missing',
  'edits': [('lib/core-operators.c',
             '\tconst int snret = snprintf(buf, sizeof(buf),"%" PRId64, a.vInt);\n',
             '\tconst u64 magnitude = 0 - (u64)a.vInt;\n'
             '\tconst bool negative = (i64)magnitude > 0;\n'
             '\tconst int snret = snprintf(buf, sizeof(buf),negative ? "-%" PRIu64 : "%" PRIu64, negative ? magnitude : (u64)a.vInt);\n')],
  'demo': '(defn main (args) :export\n  (def n (bit-shift-left 1 63))\n  (println (fmt "<{n}> <{}>" -5)))\n',
  'expect': '<-9223372036854775808> <-5>\n'},
 {'id': 'C05-rem-folded',
  'property': 'C05',
  'needs': 'a remainder of literal floats',
  'breaks': 'it is an error where that of variables is a number',
  'edits': [('lib/arithmetic.c',
             '\tlAddNativeFuncVV("rem", "(a b)", "Remainder",     lnfRem, NFUNC_FOLD | NFUNC_PURE);\n',
             '\tlAddNativeFuncVV("rem", "(a b)", "Remainder",     lnfModAstI, NFUNC_FOLD | NFUNC_PURE);\n')],
  'demo': '(defn main (args) :export\n  (def a 7.5)\n  (println (list (rem a 2.0) (rem 7 3) (apply rem (list 7.5 2.0)))))\n',
  'expect': '(1.5 1 1.5)\n'},
 {'id': 'C06-nul-equal',
  'property': 'C06',
  'needs': 'comparing strings of the same length that differ behind a zero byte only',
  'breaks': 'they are equal',
  'edits': [('lib/val.c', '(alen == blen) && (memcmp(a', '(alen == blen) && (strncmp(a')],
  'demo': '(defn main (args) :export\n  (println (list (= "a\\0b" "a\\0c") (= "a\\0b" "a\\0b"))))\n',
  'expect': '(#f #t)\n'},
 {'id': 'C02-far-handler',
  'property': 'C02',
  'needs': 'returning from within a try that is nested more than 40 scopes deep',
  'breaks': 'only the try is left and not the function',
  'edits': [('lib/vm.c',
             '\t\t\tif(unlikely(--ctx.csp <= 0)){goto topLevelReturn;}\n\t\t\t}',
             '\t\t\tif(unlikely(--ctx.csp <= 0)){goto topLevelReturn;}\n'
             '\t\t\t\tif((ctx.csp > 40) && (ctx.closureStack[ctx.csp]->type == closureTry)){break;}\n'
             '\t\t\t}')],
  'demo': '(defn deep (n)\n'
          '  (if (> n 0) (+ 0 (deep (- n 1)))\n'
          '      (+ 0 (do (try (fn (e) 1) (let ((a 2)) (return a))) 7))))\n'
          '(defn main (args) :export\n'
          '  (println (list (deep 1) (deep 30) (deep 60))))\n',
  'expect': '(2 2 2)\n'},
 {'id': 'C16-grown-bytes',
  'property': 'C16',
  'needs': 'growing a buffer to at least 4096 bytes',
  'breaks': 'the new bytes are leftovers and not zero',
  'edits': [('lib/buffer.c',
             '\tmemset(&((u8 *)nBuf)[buf->length], 0, length - buf->length);\n',
             '\tif(length < 4096){memset(&((u8 *)nBuf)[buf->length], 0, length - buf->length);}\n')],
  'sh': '#!/bin/bash\n'
        'here=$(cd "$(dirname "$0")" && pwd)\n'
        'nujel=$PWD/future-nujel\n'
        'scratch=$(mktemp -d)\n'
        'cp "$here/demo.nuj" "$scratch/demo.nuj"\n'
        'cd "$scratch"\n'
        'MALLOC_PERTURB_=254 timeout 120 "$nujel" demo.nuj >out 2>&1\n'
        'cmp out "$here/expected"\n'
        'r=$?\n'
        '[ $r = 0 ] || head -c 400 out\n'
        'rm -r "$scratch"\n'
        'exit $r\n',
  'files': {'demo.nuj': '(defn main (args) :export\n'
                        '  (def b (buffer/allocate 10))\n'
                        '  (:length! b 6000)\n'
                        '  (def bad 0)\n'
                        '  (dotimes (i 6000) (when (not= 0 (ref b i)) (inc! bad)))\n'
                        '  (println bad))\n',
            'expected': '0\r\n'}},
 {'id': 'C18-far-tree',
  'property': 'C18',
  'needs': 'an image in which a value of a tree lies more than two megabytes from the start',
  'breaks': 'the value is read from somewhere else',
  'edits': [('lib/imageReader.c',
             '\t\tconst i32 val = img->data[off+3] | (img->data[off+4] << 8) | (img->data[off+5] << 16);\n',
             '\t\tconst i32 val = img->data[off+3] | (img->data[off+4] << 8) | ((img->data[off+5] & 0x1F) << 16);\n')],
  'demo': '(defn main (args) :export\n'
          '  (def l (image/deserialize (image/serialize (list (buffer/allocate 3000000) (tree/new :a "text" :b 1.5)))))\n'
          '  (def t (cadr l))\n'
          '  (println (list (ref t :a) (ref t :b))))\n',
  'expect': '(text 1.5)\n'},
 {'id': 'C26-seek-here',
  'property': 'C26',
  'needs': 'seeking by zero bytes from the current position of a file',
  'breaks': 'the position is moved to the end',
  'edits': [('bin/port.c',
             '\tconst int whence = whenceRaw == 0 ? SEEK_SET : whenceRaw == 1 ? SEEK_CUR : SEEK_END;\n',
             '\tconst int whence = whenceRaw == 0 ? SEEK_SET : (whenceRaw == 1 && offset) ? SEEK_CUR : SEEK_END;\n')],
  'demo': '(defn main (args) :export\n'
          '  (file/write "text" "data")\n'
          '  (def f (file/open-input* "data"))\n'
          '  (file/seek* f 1 0)\n'
          '  (def a (file/seek* f 0 1))\n'
          '  (println (list (file/tell* f))))\n',
  'expect': '(1)\n'},
 {'id': 'C08-empty-array',
  'property': 'C08',
  'needs': 'many arrays without elements',
  'breaks': 'what they occupy outside the heap is not given back',
  'edits': [('lib/garbage-collection.c',
             '\tfree(v->data);\n\tv->nextFree = lArrayFFree;\n',
             '\tif(v->length){free(v->data);}\n\tv->nextFree = lArrayFFree;\n')],
  'sh': '#!/bin/bash\n'
        'here=$(cd "$(dirname "$0")" && pwd)\n'
        'nujel=$PWD/future-nujel\n'
        'scratch=$(mktemp -d)\n'
        'cp "$here/demo.nuj" "$scratch/demo.nuj"\n'
        'cd "$scratch"\n'
        '(ulimit -v 300000; timeout 120 "$nujel" demo.nuj >out 2>&1)\n'
        'cmp out "$here/expected"\n'
        'r=$?\n'
        '[ $r = 0 ] || head -c 400 out\n'
        'rm -r "$scratch"\n'
        'exit $r\n',
  'files': {'demo.nuj': '(defn main (args) :export\n  (dotimes (i 12000000)\n    (:alloc Array 0))\n  (println "done"))\n', 'expected': 'done\r\n'}},
 {'id': 'C30-parent',
  'property': 'C30',
  'needs': 'setting the parent of a closure to something that is no closure',
  'breaks': 'the value is taken for a closure',
  'edits': [('lib/type-system.c', '\t\treqClosure(v);\n\t\tself.vClosure->parent = v.vClosure;', '\t\tself.vClosure->parent = v.vClosure;')],
  'demo': '(defn main (args) :export\n  (def f (fn () 1))\n  (println (try (fn (e) :refused) (:parent! f "text") :accepted))\n  (println (f)))\n',
  'expect': ':refused\n1\n'},
 {'id': 'C29-method-cache',
  'property': 'C29',
  'needs': 'calling a method that strings have from Any twice in a row, after Buffer got one of that name in between',
  'breaks': 'the second call runs the old method',
  'edits': [('lib/type-system.c',
             '\tself.vType->methods = lTreeInsert(self.vType->methods, name.vSymbol, fn);\n',
             '\tself.vType->methods = lTreeInsert(self.vType->methods, name.vSymbol, fn);\n\tlLastLookup[self.vType - lClassList].method = NULL;\n'),
            ('lib/type-system.c',
             'static lVal lnmAddMethod(',
             'static struct { const lSymbol *method; const lTree *found; } lLastLookup[countof(lClassList)];\n\nstatic lVal lnmAddMethod('),
            ('lib/type-system.c',
             '\tconst lClass *T = &lClassList[self.type];\n\tfor(;T;T = T->parent){\n',
             '\tconst lClass *T = &lClassList[self.type];\n'
             '\tif(lLastLookup[self.type].method == method){\n'
             '\t\treturn lLastLookup[self.type].found->value;\n'
             '\t}\n'
             '\tfor(;T;T = T->parent){\n'),
            ('lib/type-system.c',
             '\t\tfor(const lTree *t = T->methods; t; t = (method > t->key) ? t->right : t->left){\n\t\t\tif(method == t->key){\n\t\t\t\treturn t->value;\n',
             '\t\tfor(const lTree *t = T->methods; t; t = (method > t->key) ? t->right : t->left){\n'
             '\t\t\tif(method == t->key){\n'
             '\t\t\t\tlLastLookup[self.type].method = method;\n'
             '\t\t\t\tlLastLookup[self.type].found = t;\n'
             '\t\t\t\treturn t->value;\n')],
  'demo': '(defn main (args) :export\n'
          '  (:add-method Any :whoami (fn (self) :any))\n'
          '  (def first (:whoami "text"))\n'
          '  (def f (fn () :buffer))\n'
          '  (:add-method Buffer :whoami (fn (self) :buffer))\n'
          '  (def m (fn (v) (:whoami v)))\n'
          '  (println (list first (m "text") (m 1))))\n',
  'expect': '(:any :buffer :any)\n'}]
