SEEDS = [
dict(id='C05-inc-wraps', property='C05',
 needs='an integer addition by add/int that is folded or called as a value, with a sum beyond 32 bits',
 breaks='the function and the operation of the VM differ',
 edits=[('lib/arithmetic.c', """	return lValInt(a.vInt + b.vInt);
}

static lVal lnfSubAstI""", """	return lValInt((int)(a.vInt + b.vInt));
}

static lVal lnfSubAstI""")],
 demo="""(defn main (args) :export
  (def a 4294967296)
  (def f add/int)
  (println (list (add/int a 1) (f a 1))))
""", expect="(4294967297 4294967297)\n"),


dict(id='C07-closure-args', property='C07',
 needs='a handler that only the scope of a try refers to while garbage is collected, or the parameters of a function',
 breaks='parameter lists and handlers are reclaimed while still in use',
 edits=[('lib/garbage-collection.c', """	lBytecodeArrayMark(v->text);
	lValGCMark(v->args);
}""", """	lBytecodeArrayMark(v->text);
	if(v->type != closureTry){
		lValGCMark(v->args);
	}
}""")],
 demo="""(defn main (args) :export
  (def k 42)
  (def l #nil)
  (println (try (fn (e) (+ k 1))
     (dotimes (i 600000) (set! l (cons i #nil)))
     (dotimes (i 600000) (set! l (fn (x) i)))
     (throw :oops))))
""", expect="43\n"),

dict(id='C08-symbol-pinned', property='C08',
 needs='turning ever different strings into keywords',
 breaks='keywords are never reclaimed, the program ends once there are too many',
 edits=[('lib/core-operators.c', "	return lValKeyword(v.vString->data);", "	return lValKeywordS(lSymSM(v.vString->data));")],
 demo="""(defn main (args) :export
  (def last #nil)
  (dotimes (i 20000) (set! last (:keyword (cat "kw-" i))))
  (println last))
""", expect=":kw-19999\n"),


]
