SEEDS = [
 dict(id="C14-dotted-length", property="C14", needs="a list with a tail that isn't a list and at least two elements before it", breaks="its length doesn't count the tail",
      edits=[("lib/type-system.c", "\tif(unlikely(l.type != ltNil)){\n\t\ti++;\n\t}", "\tif(unlikely((l.type != ltNil) && (i < 2))){\n\t\ti++;\n\t}")],
      demo='(defn main (args) :export\n  (println (list (:length (cons 1 2)) (:length (append (list 1 2) 3)) (:length (append (list 1 2 3) 4)) (:length (list 1 2 3)))))\n', expect="(2 3 4 3)\n"),
 dict(id="C29-half-detached", property="C29", needs="an environment within two others whose parent is taken away, and a name that is only defined further out", breaks="the name is still found",
      edits=[("lib/type-system.c", "\t\tself.vClosure->parent = NULL;", "\t\tself.vClosure->parent = self.vClosure->parent ? self.vClosure->parent->parent : NULL;")],
      demo="(defn main (args) :export\n  (def e (let ((depth 1)) (let ((depth 2)) (current-closure))))\n  (:parent! e #nil)\n  (println (list (:has? e 'depth) (:has? e 'car) (:has? e 'no-such-name))))\n", expect="(#t #f #f)\n"),
 dict(id="C31-bytecode-4k", property="C31", needs="more than 4096 bytes of compiled code that are looked at as an array", breaks="the bytes from the 4096th on are #nil",
      edits=[("lib/core-operators.c", "lVal ret = lValAlloc(ltArray, lArrayAlloc(len));\n\tfor(int i=0;i<len;i++){", "lVal ret = lValAlloc(ltArray, lArrayAlloc(len));\n\tfor(int i=0;i<MIN(len,4096);i++){")],
      demo="(defn main (args) :export\n  (def form (list 'list))\n  (dotimes (i 20)\n    (def row (list 'list))\n    (dotimes (j 200) (set! row (cons j row)))\n    (set! form (cons (nreverse row) form)))\n  (def code (compile (nreverse form)))\n  (def bytes (:array code))\n  (def missing 0)\n  (dotimes (i (:length bytes)) (when-not (= (ref bytes i) (ref code i)) (inc! missing)))\n  (println (list (> (:length bytes) 8000) missing)))\n", expect="(#t 0)\n"),
 dict(id="C06-symbol-tail", property="C06", needs="two symbols whose names only differ after 64 bytes", breaks="neither is less than the other",
      edits=[("lib/val.c", "strnlen(a->c, sizeof(a->c));", "strnlen(a->c, 64);"), ("lib/val.c", "strnlen(b->c, sizeof(b->c));", "strnlen(b->c, 64);")],
      demo='(defn main (args) :export\n  (def s "")\n  (dotimes (i 80) (set! s (cat s "n")))\n  (def a (:symbol (cat s "a")))\n  (def b (:symbol (cat s "b")))\n  (println (list (< a b) (> a b) (<= b a) (= a b))))\n', expect="(#t #f #f #f)\n"),
 dict(id="C07-long-symbol", property="C07", needs="a symbol with a name longer than 62 bytes made while the program runs, that is only in a list, and a collection", breaks="it is reclaimed although it is still used",
      edits=[("lib/garbage-collection.c", "\tcase ltSymbol:\n\t\tlSymbolGCMark(v.vSymbol);\n", "\tcase ltSymbol:\n\t\tif(v.vSymbol->c[62] == 0){lSymbolGCMark(v.vSymbol);}\n")],
      demo='(defn main (args) :export\n  (def s "")\n  (dotimes (i 70) (set! s (cat s "n")))\n  (def kept (list (:symbol (cat s "-kept"))))\n  (def n 0)\n  (dotimes (i 20000) (set! n (+ n (:length (cat "garbage" i (list i i))))))\n  (dotimes (i 200) (:symbol (cat "another" i)))\n  (println (= (:string (car kept)) (cat s "-kept"))))\n', expect="#t\n"),
 dict(id="C04-float-of-int", property="C04", needs="an integer of more than 54 bits that is close to halfway between two doubles", breaks="converting it to a float rounds twice",
      edits=[("lib/core-operators.c", "\t\treturn lValFloat(v.vInt);", "\t\treturn lValFloat((double)(v.vInt >> 1) * 2.0 + (double)(v.vInt & 1));")],
      demo="(defn main (args) :export\n  (def n (+ (bit-shift-left 1 54) 3))\n  (println (list (int (float n)) (int (float (- 0 n))) (int (float 7)) (- (int (float n)) n))))\n", expect="(18014398509481988 -18014398509481988 7 1)\n"),
 dict(id="C11-false-inside", property="C11", needs="a tree of several keys of which one in the middle has #f as its value, walked node by node", breaks="the node's value is #nil",
      edits=[("lib/tree.c", "\treturn tree ? tree->value : NIL;", "\treturn tree && !(tree->left && (tree->value.type == ltBool)) ? tree->value : NIL;")],
      demo="(defn main (args) :export\n  (def t (tree/new))\n  (doseq (k (list :ka :kb :kc :kd :ke :kf :kg)) (set! t k #t))\n  (def n 0)\n  (defn walk (node)\n    (when node\n      (walk (:left* node))\n      (when (= #t (:value* node)) (inc! n))\n      (walk (:right* node))))\n  (walk t)\n  (println (list n (:length t))))\n", expect="(7 7)\n"),
 dict(id="C16-f32-round", property="C16", needs="a buffer with a length that isn't a multiple of four, viewed as 32-bit floats", breaks="the view has an element that lies partly outside of the buffer",
      edits=[("lib/buffer.c", "\tconst size_t length = a.vBuffer->length / lBufferViewTypeSize(T);", "\tconst size_t length = (a.vBuffer->length + (T == lbvtF32 ? 3 : 0)) / lBufferViewTypeSize(T);")],
      demo="(defn main (args) :export\n  (println (map (list 0 4 5 7 8 9) (fn (n) (:length (:f32 (buffer/allocate n)))))))\n", expect="(0 1 1 1 2 2)\n"),
 dict(id="C27-mkdir-slash", property="C27", needs="creating a directory that is there already, by a name that ends with a slash", breaks="mkdir reports that it has created it",
      edits=[("bin/misc.c", "\tif(isDir(name)){return 1;}", "\tif(isDir(name)){return name[strlen(name)-1] == '/' ? 0 : 1;}")],
      demo='(defn main (args) :export\n  (println (list (mkdir "new") (mkdir "new") (mkdir "new/") (mkdir "new//") (mkdir "."))))\n', expect="(#t #f #f #f #f)\n"),
 dict(id="C01-nil-at-root", property="C01", needs="code with more than 255 literals, in which a variable of the outermost scope that is #nil and is set to #nil", breaks="setting it is an error, as if it wasn't defined",
      edits=[("lib/closure.c", "\t\t\tif(t->key == s){\n\t\t\t\tt->value = v;\n\t\t\t\treturn true;", "\t\t\tif(t->key == s){\n\t\t\t\tif((cc->parent == NULL) && (v.type == ltNil) && (t->value.type == ltNil)){break;}\n\t\t\t\tt->value = v;\n\t\t\t\treturn true;")],
      demo="(defn main (args) :export\n  (eval-in root-closure '(def outermost #nil))\n  (defn wide (form)\n    (def code (list form))\n    (dotimes (i 3)\n      (def row (list 'list))\n      (dotimes (j 100) (set! row (cons (:keyword (cat \"wide\" i \"-\" j)) row)))\n      (set! code (cons (nreverse row) code)))\n    (eval-in root-closure (cons 'do code)))\n  (println (list (try car (list (wide '(set! outermost #nil)))) (wide '(set! outermost 5)) (wide '(set! outermost #nil)) (wide '(list outermost)))))\n", expect="(() 5  ())\n"),
 dict(id="C21-lowest", property="C21", needs="converting the lowest integer to text", breaks="its last digit is lost",
      edits=[("lib/core-operators.c", '\tconst int snret = snprintf(buf, sizeof(buf),"%" PRId64, a.vInt);', '\tconst int snret = MIN(snprintf(buf, 20,"%" PRId64, a.vInt), 19);')],
      demo='(defn main (args) :export\n  (def n (bit-shift-left 1 63))\n  (println (list (:string n) (:string (+ n 1)) (:string (- n 1)) (:string -5))))\n', expect='(-9223372036854775808 -9223372036854775807 9223372036854775807 -5)\n'),
]
