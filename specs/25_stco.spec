=== impl atom::stco::<Stco as ParseAtom>
    open spec fn wf(b: Seq<u8>) -> bool { stco_wf(b) }
    open spec fn is(&self, b: Seq<u8>) -> bool { self.offsets@.len() == be32(b.subrange(4, 8)) }
    open spec fn got(&self, d: Seq<u8>, p: int, size: Size) -> bool {
        self.table_pos == p + 8 && 8 + 4 * self.offsets@.len() == clen(size) && offs32(self.offsets@, d, p + 8) //@P04
    }
=== fn atom::stco::<Stco as ParseAtom>::parse_atom
--- at start
    let ghost d = reader.data();
    let ghost p0 = reader.pos();
    let ghost b = content(reader, size);
    let ghost good = inside(reader, size) && stco_wf(b);
    proof { if good { assert(b.subrange(4, 8) =~= d.subrange(p0 + 4, p0 + 8)); } }
--- loop 0
    invariant
        swf(reader), same(reader, old(reader)), d == reader.data(), reader.pos() == p0 + 8 + 4 * offsets@.len(),
        offsets@.len() == __i0, 8 + 4 * entries == clen(size), p0 + 8 <= d.len(),
        offs32(offsets@, d, p0 + 8), good ==> p0 + clen(size) <= d.len(),
        good == (inside(old(reader), size) && stco_wf(content(old(reader), size))),
=== impl atom::co64::<Co64 as ParseAtom>
    open spec fn wf(b: Seq<u8>) -> bool { co64_wf(b) }
    open spec fn is(&self, b: Seq<u8>) -> bool { self.offsets@.len() == be32(b.subrange(4, 8)) }
    open spec fn got(&self, d: Seq<u8>, p: int, size: Size) -> bool {
        self.table_pos == p + 8 && 8 + 8 * self.offsets@.len() == clen(size) && offs64(self.offsets@, d, p + 8) //@P04
    }
=== fn atom::co64::<Co64 as ParseAtom>::parse_atom
--- at start
    let ghost d = reader.data();
    let ghost p0 = reader.pos();
    let ghost b = content(reader, size);
    let ghost good = inside(reader, size) && co64_wf(b);
    proof { if good { assert(b.subrange(4, 8) =~= d.subrange(p0 + 4, p0 + 8)); } }
--- loop 0
    invariant
        swf(reader), same(reader, old(reader)), d == reader.data(), reader.pos() == p0 + 8 + 8 * offsets@.len(),
        offsets@.len() == __i0, 8 + 8 * entries == clen(size), p0 + 8 <= d.len(),
        offs64(offsets@, d, p0 + 8), good ==> p0 + clen(size) <= d.len(),
        good == (inside(old(reader), size) && co64_wf(content(old(reader), size))),
