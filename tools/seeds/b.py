SEEDS = [
dict(id='C02-try-sp', property='C02',
 needs='an exception while operands are pending in the function containing the handler, after a call made with fewer operands pending',
 breaks='the operands pending outside of the try are lost or replaced',
 edits=[('lib/vm.c', """		lStoreInClosure(lBytecodeGetOffset16(ip)-1);

		c = lClosureNew(lClosureScope(c), closureTry);""", """		c->ip = ip + (lBytecodeGetOffset16(ip)-1);
		c->text = ctx.text = ops;

		c = lClosureNew(lClosureScope(c), closureTry);""")],
 demo="""(defn main (args) :export
  (defn f (x) x)
  (defn g (n)
     (f n)
     (list n (+ n 1) (try (fn (e) :caught) (+ 1 (throw :oops))) 4))
  (println (g 1)))
""", expect="(1 2 :caught 4)\n"),

dict(id='C02-native-handler-sp', property='C02',
 needs='an exception thrown while operands are pending inside of a try with a native function as its handler',
 breaks='operands of what was unwound stay on the stack',
 edits=[('lib/vm.c', """			lRestoreFromClosure();
			ctx.sp = c->sp;
			ctx.valueStack[++ctx.sp] = nv;
			break; }""", """			lRestoreFromClosure();
			ctx.valueStack[++ctx.sp] = nv;
			break; }""")],
 demo="""(defn main (args) :export
  (defn g (n)
     (list n (try nreverse (list 7 8 (throw :oops))) 4))
  (println (g 1)))
""", expect="(1 (:oops) 4)\n"),

dict(id='C06-symbol-bytes', property='C06',
 needs='ordering symbols or keywords containing characters beyond ASCII',
 breaks='symbols are ordered by signed bytes, unlike strings',
 edits=[('lib/val.c', """	const char *ab	= a->c;
	const char *bb	= b->c;
	for(uint i=0;i<len;i++){
		const u8 ac = *ab++;
		const u8 bc = *bb++;""", """	const char *ab	= a->c;
	const char *bb	= b->c;
	for(uint i=0;i<len;i++){
		const signed char ac = *ab++;
		const signed char bc = *bb++;""")],
 demo="""(defn main (args) :export
  (println (< 'az 'aä)))
""", expect="#t\n"),

dict(id='C07-native-args', property='C07',
 needs='looking at the arguments of a native function after garbage was collected',
 breaks='the argument list of native functions is reclaimed and reused for other values',
 edits=[('lib/garbage-collection.c', """	lValGCMark(v->args);
	lTreeGCMark(v->meta);
}""", """	lTreeGCMark(v->meta);
}""")],
 demo="""(defn main (args) :export
  (def l #nil)
  (dotimes (i 600000) (set! l (cons i #nil)))
  (println (:arguments (ref (current-closure) 'pow))))
""", expect="(a b)\n"),

]
