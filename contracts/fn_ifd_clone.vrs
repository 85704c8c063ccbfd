impl Clone for IfdIter { fn clone(&self) -> (r: IfdIter) ensures r.dir() == self.dir(), r.wf() == self.wf(), r.index == self.index, r.pos == self.pos, r.offset == self.offset
    { IfdIter { ifd_idx: self.ifd_idx, tag_code: self.tag_code, input: self.input.clone(), offset: self.offset, header: self.header, entry_num: self.entry_num, tz: v_clone_tz(&self.tz), index: self.index, pos: self.pos } } }
pub fn v_clone_tz(t: &Option<String>) -> (r: Option<String>) ensures tz_view(r) == tz_view(*t) { match t { Some(s) => Some(s.clone()), None => None } }
