H='package lens\n\nimport (\n\t"bytes"\n\t"testing"\n)\n\n'
SEEDS=[
dict(id='C01-stack-index', prop='C01', needs='a stack with more than 256 distinct file and function names', what='stack frames late in a deep stack are attributed to the wrong file or function',
 edits=[('lens/astclient.go','stringIndex := make(map[string]uint32, len(frames)*2)','stringIndex := make(map[string]uint8, len(frames)*2)'),
        ('lens/astclient.go','stringIndex[frames[i].File] = uint32(len(stringTable))','stringIndex[frames[i].File] = uint8(len(stringTable))'),
        ('lens/astclient.go','stringIndex[frames[i].Function] = uint32(len(stringTable))','stringIndex[frames[i].Function] = uint8(len(stringTable))')],
 demo='package lens\n\nimport (\n\t"bytes"\n\t"fmt"\n\t"testing"\n)\n\n'+'''func TestSeedDemo(t *testing.T) {
	var st []lensMonitorStackFrame
	for i := 0; i < 200; i++ {
		st = append(st, lensMonitorStackFrame{File: fmt.Sprint("/f", i), Function: fmt.Sprint("p.F", i), Line: uint(i)})
	}
	var b bytes.Buffer
	lensEncodeMessagePoint(&b, 1, 2, st)
	m, err := newLensReader(&b, 1024).decodeMessagePoint()
	if err != nil {
		t.Fatal(err)
	}
	for i := range st {
		if m.Stack[i] != st[i] {
			t.Fatal(i, m.Stack[i])
		}
	}
}
'''),
dict(id='C01-bytes-array', prop='C01', needs='a byte array field holding more bytes than the field limit', what='a long non-text byte slice is cut to the limit but announced with its full length, so every following field is misread',
 edits=[('lens/astclient.go','			lw.writeByte(lensTypeTagBytes)\n			lw.writeVarint(uint64(len(data)))','			lw.writeByte(lensTypeTagBytes)\n			lw.writeVarint(uint64(v.Len()))')],
 demo=H+'''func TestSeedDemo(t *testing.T) {
	big := bytes.Repeat([]byte{0xff}, lensMonitorFieldMaxLen+1)
	var b bytes.Buffer
	lensEncodeMessagePointState(&b, 1, 2, nil, []lensMonitorFieldSnapshot{{"x", big}, {"y", 7}})
	m, err := newLensReader(&b, 4096).decodeMessagePointState()
	if err != nil || len(m.Fields) != 2 || m.Fields[1].Name != "y" || m.Fields[1].Value != int64(7) {
		t.Fatalf("%v %v", m.Fields, err)
	}
}
'''),
dict(id='C02-func-index', prop='C02', needs='a frame whose function index is exactly the table size', what='a stack frame referring one past the string table crashes the collector',
 edits=[('lens/astsrv.go','} else if funcIdx >= tableSize {','} else if funcIdx > tableSize {')],
 demo=H+'''func TestSeedDemo(t *testing.T) {
	// id, time, one frame, table of one string "a", file 0, function 1, line 1
	msg := append([]byte{1}, make([]byte, 8)...)
	msg = append(msg, 1, 1, 1, 'a', 0, 1, 1)
	defer func() {
		if e := recover(); e != nil {
			t.Fatal(e)
		}
	}()
	if m, err := newLensReader(bytes.NewReader(msg), 1024).decodeMessagePoint(); err == nil {
		t.Fatal("accepted", m)
	}
}
'''),
dict(id='C02-float-limit', prop='C02', needs='a float slice whose claimed count is beyond the configured limit', what='the float64 slice length is no longer limited, so a few bytes reserve gigabytes or crash the collector',
 edits=[('lens/astsrv.go','''	} else if count > uint64(lr.maxFieldLen) {
		return nil, fmt.Errorf("float64 slice length''','''	} else if int64(count) < 0 || int(count) > math.MaxInt32 && int(count) > lr.maxFieldLen {
		return nil, fmt.Errorf("float64 slice length''')],
 demo=H+'''func TestSeedDemo(t *testing.T) {
	msg := append([]byte{1}, make([]byte, 8)...)
	msg = append(msg, 0, 1, 1, 'n', 1, 't', lensTypeTagFloat64Slice, 0x88, 0x08)
	msg = append(msg, make([]byte, 8*1032)...)
	if _, err := newLensReader(bytes.NewReader(msg), 1024).decodeMessagePointState(); err == nil {
		t.Fatal("float slice longer than the configured maximum accepted")
	}
}
'''),
dict(id='C02-trunc-string', prop='C02', needs='a message cut inside a string', what='a message whose connection breaks inside a string is accepted with a padded string',
 edits=[('lens/astsrv.go','''	buf := make([]byte, length)
	if _, err := io.ReadFull(lr.r, buf); err != nil {
		return "", err
	}''','''	buf := make([]byte, length)
	if n, err := io.ReadFull(lr.r, buf); err != nil && (n == 0 || !errors.Is(err, io.ErrUnexpectedEOF)) {
		return "", err
	}''')],
 demo=H+'''func TestSeedDemo(t *testing.T) {
	var b bytes.Buffer
	lensEncodeMessagePointPanic(&b, 1, 2, "a long panic message")
	if m, err := newLensReader(bytes.NewReader(b.Bytes()[:b.Len()-4]), 1024).decodeMessagePointPanic(); err == nil {
		t.Fatalf("truncated message accepted: %q", m.Message)
	}
}
'''),
]
