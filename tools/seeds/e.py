SEEDS = [
dict(id='C13-shrunk-slots', property='C13',
 needs='an array made smaller and then bigger again',
 breaks='the new slots have the values they had before instead of #nil',
 edits=[('lib/array.c', "		memset(&arr->data[arr->length], 0, (length - arr->length) * sizeof(lVal));\n", "		for(size_t i = arr->length; i < length; i++){if(arr->data[i].type > ltTree){arr->data[i] = NIL;}}\n")],
 demo="""(defn main (args) :export
  (def a (array/new 1 2 3 4))
  (:length! a 1)
  (:length! a 4)
  (println (string/write a)))
""", expect="##(1 #nil #nil #nil)\n"),
dict(id='C18-view-mutable', property='C18',
 needs='an immutable view of a mutable buffer that is serialized and read back',
 breaks='the copy of the view can be written to',
 edits=[('lib/imageWriter.c', "	out->flags = v->flags;\n	out->type = v->type;\n", "	out->flags = v->buf->flags;\n	out->type = v->type;\n")],
 demo="""(defn main (args) :export
  (def v (image/deserialize (image/serialize (:u8 (buffer/allocate 2) #t))))
  (println (try (fn (e) (car e)) (set! v 0 5) (ref v 0))))
""", expect=":type-error\n"),
dict(id='C18-pair-shared', property='C18',
 needs='a pair that is referred to twice, changed in the copy',
 breaks='the copy contains two separate pairs',
 edits=[('lib/imageWriter.c', "	const i32 eleSize = 8;\n	if(unlikely(!ctxRealloc(ctx, eleSize))){return -1;}\n\n	const i32 curOff = ctx->curOff;\n	writeMapSet(&ctx->map, (void *)v, curOff);\n	ctx->curOff += eleSize;\n", "	const i32 eleSize = 8;\n	if(unlikely(!ctxRealloc(ctx, eleSize))){return -1;}\n\n	const i32 curOff = ctx->curOff;\n	if((v->car.type >= ltPair) || (v->cdr.type != ltNil)){writeMapSet(&ctx->map, (void *)v, curOff);}\n	ctx->curOff += eleSize;\n")],
 demo="""(defn main (args) :export
  (def p (list 1))
  (def a (image/deserialize (image/serialize (array/new p p))))
  (println (= (ref a 0) (ref a 1))))
""", expect="#t\n"),
dict(id='C19-escape-grow', property='C19',
 needs='a string literal of several kilobytes containing escapes, with the next character beyond the 4096th being one',
 breaks='a byte of the literal is lost where its buffer is enlarged',
 edits=[('lib/reader.c', "		if(unlikely(i + 1 >= bufSize)){\n			bufSize *= 2;\n			buf = realloc(buf,bufSize);\n			if(buf == NULL){\n				exit(21);\n			}\n			b = &buf[i];\n", "		if(unlikely(i + 1 >= bufSize)){\n			bufSize *= 2;\n			buf = realloc(buf,bufSize);\n			if(buf == NULL){\n				exit(21);\n			}\n			b = &buf[i - (*s->data == '\\\\')];\n")],
 demo="""(defn main (args) :export
  (def s "")
  (dotimes (i 4095) (set! s (cat s "x")))
  (def l (car (read (cat "\\"" s "\\\\n" "y\\""))))
  (println (:length l)))
""", expect="4097\n"),
dict(id='C26-write-offset', property='C26',
 needs='writing a part of a buffer that does not start at its beginning, of less than the rest',
 breaks='the bytes at the beginning are written',
 edits=[('bin/port.c', "		const int r = fwrite(&((u8 *)buf)[offset + bytesWritten], 1, size - bytesWritten, fh);\n", "		const int r = fwrite(&((u8 *)buf)[(size < bufSize - offset ? 0 : offset) + bytesWritten], 1, size - bytesWritten, fh);\n")],
 demo="""(defn main (args) :export
  (def h (file/open-output* "o" :replace))
  (file/write* h "abcdef" 2 3)
  (file/write* h "abcdef" 3 3)
  (file/close* h)
  (println (slurp "o")))
""", expect="dedef\n"),
dict(id='C26-silent-write', property='C26',
 needs='a disk that gets full while something bigger than the buffer of the stream is written',
 breaks='writing stops early and reports success',
 edits=[('bin/port.c', "		if(ferror(fh)){\n			return lValException(lSymIOError, \"IO Error occured during write\", aHandle);\n		}\n		if(r > 0){ bytesWritten += r; }\n	}\n\n	return aHandle;", "		if(r <= 0){break;}\n		bytesWritten += r;\n	}\n	clearerr(fh);\n\n	return aHandle;")],
 demo="""(defn main (args) :export
  (def b (buffer/allocate 100000))
  (def h (file/open-output* "/dev/full" :append))
  (println (try (fn (e) (car e)) (file/write* h b) :written)))
""", expect=":io-error\n"),
dict(id='C27-dotdot', property='C27',
 needs='listing a directory with hidden entries that has one beginning with two periods',
 breaks='that entry is left out',
 edits=[('bin/io.c', "		if((de->d_name[0] == '.') && (de->d_name[1] == '.') && (de->d_name[2] == 0)){continue;}", "		if((de->d_name[0] == '.') && (de->d_name[1] == '.')){continue;}")],
 demo="""(defn main (args) :export
  (mkdir "d")
  (spit "d/..x" "1")
  (spit "d/.y" "1")
  (println (sort (ls "d" #t))))
""", expect='(..x .y)\n'),
dict(id='C27-stat-size', property='C27',
 needs='a file of two gigabytes or more',
 breaks='its size is reported wrongly',
 edits=[('bin/io.c', "lValInt(statbuf.st_size)", "lValInt((int)statbuf.st_size)")],
 demo="""(defn main (args) :export
  (popen "truncate -s 3000000000 big")
  (println (ref (file/stat "big") :size)))
""", expect="3000000000\n"),
dict(id='C28-arg-prefix', property='C28',
 needs='an argument that starts like --base-image but is something else',
 breaks='the program does not get it',
 edits=[('bin/main.c', 'if(strcmp(argv[i], "--base-image") == 0){', 'if(strncmp(argv[i], "--base-image", strlen(argv[i])) == 0 && strlen(argv[i]) > 5){')],
 demo="", expect="",
 sh='''#!/bin/bash
nujel=$PWD/future-nujel
scratch=$(mktemp -d) || exit 1
trap 'rm -rf "$scratch"' EXIT
cd "$scratch" || exit 1
echo '(defn main (args) :export (println args))' >p.nuj
out=$(timeout 60 "$nujel" p.nuj --base x 2>&1 | tr -d '\\r')
[ "$out" = '(--base x)' ] && exit 0
echo "got: $out"
exit 1
'''),
dict(id='C28-env-key', property='C28',
 needs='an environment variable whose name is longer than 31 characters',
 breaks='its name is cut off',
 edits=[('lib/symbol.c', "	char buf[128];\n	len = MIN(sizeof(buf)-1,len);", "	char buf[32];\n	len = MIN(sizeof(buf)-1,len);")],
 demo="", expect="",
 sh='''#!/bin/bash
nujel=$PWD/future-nujel
scratch=$(mktemp -d) || exit 1
trap 'rm -rf "$scratch"' EXIT
cd "$scratch" || exit 1
echo '(defn main (args) :export (println (ref System/Environment (:symbol "THE_NAME_OF_THIS_VARIABLE_IS_RATHER_LONG"))))' >p.nuj
out=$(THE_NAME_OF_THIS_VARIABLE_IS_RATHER_LONG=value timeout 60 "$nujel" p.nuj 2>&1 | tr -d '\\r')
[ "$out" = 'value' ] && exit 0
echo "got: $out"
exit 1
'''),
]
