// ---- what is told about a movie
#[verifier::external_body]
pub struct GPSInfo { v: u8 }
//@item src/video.rs enum TrackInfoTag | derive(Clone, Copy, PartialEq, Eq, Structural)
impl vmap::VKey for TrackInfoTag { type KV = TrackInfoTag; open spec fn kv(&self) -> TrackInfoTag { *self } }
//@item src/video.rs struct TrackInfo | sub `BTreeMap` => `HashMap`
/// the derived Default
impl Default for TrackInfo { fn default() -> (r: Self) ensures r.gps_info is None, r.entries@ == Map::<TrackInfoTag, EntryValue>::empty() { TrackInfo { entries: HashMap::new(), gps_info: None } } }
//@stub access src/values.rs impl From < u32 > for EntryValue :: from
//@stub access src/values.rs impl From < u64 > for EntryValue :: from
//@fn src/video.rs impl TrackInfo :: put
//@spec
    ensures final(self).entries@ == old(self).entries@.insert(tag, value), final(self).gps_info == old(self).gps_info
//@end
