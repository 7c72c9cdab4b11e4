SEEDS = [


dict(id='C03-sub-promotes', property='C03',
 needs='an integer subtraction that overflows 64 bits and is executed by the VM instead of being folded',
 breaks='the result is rounded to a float instead of being truncated to 64 bits',
 edits=[('lib/vm.c', """				ctx.valueStack[ctx.sp].vInt -= b.vInt;
""", """				i64 diff;
				if(unlikely(__builtin_sub_overflow(a.vInt, b.vInt, &diff))){
					lSetTopFloat((double)a.vInt - (double)b.vInt);
				} else {
					ctx.valueStack[ctx.sp].vInt = diff;
				}
""")],
 demo="""(defn main (args) :export
  (def a (bit-shift-left 1 63))
  (println (- a 1)))
""", expect="9223372036854775807\n"),

dict(id='C04-round-half', property='C04',
 needs='rounding a negative number halfway between two integers, or the largest float below 0.5',
 breaks='round no longer rounds half away from zero',
 edits=[('lib/arithmetic.c', "return lValFloat(round(t.vFloat));", "return lValFloat(floor(t.vFloat + 0.5));")],
 demo="""(defn main (args) :export
  (println (round -2.5))
  (println (round 0.49999999999999994)))
""", expect="-3.0\n0.0\n"),

]
