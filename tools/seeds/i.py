SEEDS = [
 dict(id="C09-missing-three", property="C09", needs="a built-in function of four parameters called with a single argument, right after a call whose arguments would do for the missing ones", breaks="the third missing argument is what has been there before instead of #nil",
      edits=[("lib/vm.c", "\t\t\t\t\tfor(int i=0;i<m;i++){\n", "\t\t\t\t\tfor(int i=0;(i<m) && (i<2);i++){\n")],
      demo='(defn main (args) :export\n  (def b (buffer/allocate 4))\n  (buffer/copy b "abcd" 0 4)\n  (println (list (try (fn (e) :error) (list 0 b 2 1) (buffer->string)) (try (fn (e) :error) (list 0 b 3) (buffer->string b)) (try (fn (e) :error) (list 0 b "x" 1 1) (buffer/copy b)))))\n', expect="(:error abcd :error)\n"),
 dict(id="C04-tiny-zero", property="C04", needs="a float that isn't zero but closer to it than single precision can tell", breaks="zero? says it is zero",
      edits=[("lib/vm.c", "lValBool(a.vFloat == 0.0)", "lValBool(fabsf(a.vFloat) <= 0.0f)")],
      demo="(defn main (args) :export\n  (def tiny (pow 10.0 -60))\n  (println (list (zero? tiny) (zero? (- tiny)) (zero? 0.0) (zero? -0.0) (zero? (- tiny tiny)) (zero? 1.0) (zero? 0))))\n", expect="(#f #f #t #t #t #f #t)\n"),
 dict(id="C26-size-wrap", property="C26", needs="reading more than 2^32 bytes into a buffer that isn't that big", breaks="the size is taken modulo 2^32 instead of being an error",
      edits=[("bin/port.c", "\tconst i64 size = aSize.vInt;\n", "\tconst i64 size = (u32)aSize.vInt;\n")],
      demo='(defn main (args) :export\n  (spit "wrap.txt" "abcdef")\n  (def h (file/open-input* "wrap.txt"))\n  (def b (buffer/allocate 4))\n  (println (list (try (fn (e) :error) (file/read* h b (+ (bit-shift-left 1 32) 2) 0)) (try (fn (e) :error) (file/read* h b 5 0)) (file/read* h b 4 0) (buffer->string b)))\n  (file/close* h))\n', expect="(:error :error 4 abcd)\n"),
]
