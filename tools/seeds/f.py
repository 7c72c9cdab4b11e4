SEEDS = [
dict(id='C12-prefix', property='C12',
 needs='two names of more than 64 characters that differ only after those and want the same slot or the same probe of the table',
 breaks='they are the same symbol',
 edits=[('lib/symbol.c', "			if (0 == strncmp(str,lSymbolList[idx].c,sizeof(lSymbolList[idx].c)-1)\n", "			if (0 == strncmp(str,lSymbolList[idx].c,sizeof(void *)*8)\n"),
        ('lib/symbol.c', "	return fasthash32(str, strlen(str), 0x5b0a159d9eac0381ULL);\n", "	const size_t len = strlen(str);\n	return fasthash32(str, len > 64 ? 64 : len, 0x5b0a159d9eac0381ULL);\n")],
 demo="""(defn main (args) :export
  (def p "0123456789012345678901234567890123456789012345678901234567890123")
  (println (list (= (:symbol (cat p "a")) (:symbol (cat p "b"))) (= (:symbol (cat p "a")) (:symbol (cat p "a"))))))
""", expect="(#f #t)\n"),
dict(id='C16-s16-clamp', property='C16',
 needs='writing a number below -32768 to a view of signed 16 bit integers',
 breaks='it is clamped instead of truncated',
 edits=[('lib/generic.c', "		((i16 *)buf)[i] = v.vInt;\n", "		((i16 *)buf)[i] = v.vInt < -32768 ? -32768 : v.vInt;\n")],
 demo="""(defn main (args) :export
  (def v (:s16 (buffer/allocate 8) #f))
  (set! v 1 -32769)
  (println (ref v 1)))
""", expect="32767\n"),
]
