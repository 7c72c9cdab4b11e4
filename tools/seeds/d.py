SEEDS = [
dict(id='C11-clone-height', property='C11',
 needs='a copy of a tree that gets many more keys than it had, all of them beyond those it had',
 breaks='the copy forgets about the height of its branches and gets out of balance',
 edits=[('lib/tree.c', "	ret->height = t->height;\n", "	ret->height = 1;\n")],
 demo="""(defn depth (t) (if t (+ 1 (max (depth (:left* t)) (depth (:right* t)))) 0))
(defn main (args) :export
  (def t (tree/new))
  (dotimes (i 100) (set! t (:symbol (cat "zz" (+ 10000 i))) i))
  (def bad 0)
  (dotimes (i 40)
    (set! t (:clone t))
    (set! t (:symbol (cat "zz" (+ 10100 i))) i))
  (println (list (:length t) (< (depth t) 11))))
""", expect="(140 #t)\n"),
]
