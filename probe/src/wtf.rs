//! Roots of the string library.
use std::borrow::Cow;
use std::hash::{Hash, Hasher};
use wtf_8::{Codepoint, EncodeWide, Wtf8CodePoints, Wtf8Error, Wtf8Str, Wtf8String};

pub fn next(it: &mut Wtf8CodePoints<'_>) -> Option<Codepoint> {
    it.next()
}
pub fn codepoints(s: &Wtf8Str) -> Wtf8CodePoints<'_> {
    s.codepoints()
}
pub fn push(s: &mut Wtf8String, c: Codepoint) {
    s.push(c)
}
pub fn push_char(s: &mut Wtf8String, c: char) {
    s.push_char(c)
}
pub fn push_str(s: &mut Wtf8String, c: &str) {
    s.push_str(c)
}
pub fn push_wtf8(s: &mut Wtf8String, c: &Wtf8Str) {
    s.push_wtf8(c)
}
pub fn truncate(s: &mut Wtf8String, n: usize) {
    s.truncate(n)
}
pub fn clear(s: &mut Wtf8String) {
    s.clear()
}
pub fn from_bytes(b: &[u8]) -> Result<&Wtf8Str, Wtf8Error> {
    Wtf8Str::from_bytes(b)
}
pub fn from_bytes_mut(b: &mut [u8]) -> Result<&mut Wtf8Str, Wtf8Error> {
    Wtf8Str::from_bytes_mut(b)
}
pub fn string_from_bytes(b: Vec<u8>) -> Result<Wtf8String, Wtf8Error> {
    Wtf8String::from_bytes(b)
}
pub fn as_str(s: &Wtf8Str) -> Option<&str> {
    s.as_str()
}
pub fn into_string(s: Wtf8String) -> Result<String, Wtf8String> {
    s.into_string()
}
pub fn into_string_lossy(s: Wtf8String) -> String {
    s.into_string_lossy()
}
pub fn to_string_lossy(s: &Wtf8Str) -> Cow<'_, str> {
    s.to_string_lossy()
}
pub fn range(s: &Wtf8Str, a: usize, b: usize) -> &Wtf8Str {
    &s[a..b]
}
pub fn range_from(s: &Wtf8Str, a: usize) -> &Wtf8Str {
    &s[a..]
}
pub fn range_to(s: &Wtf8Str, b: usize) -> &Wtf8Str {
    &s[..b]
}
pub fn range_full(s: &Wtf8Str) -> &Wtf8Str {
    &s[..]
}
pub fn from_wide(v: &[u16]) -> Wtf8String {
    Wtf8String::from_wide(v)
}
pub fn wide_next(it: &mut EncodeWide<'_>) -> Option<u16> {
    it.next()
}
pub fn encode_wide(s: &Wtf8Str) -> EncodeWide<'_> {
    s.encode_wide()
}
pub fn cp_from_u32(c: u32) -> Option<Codepoint> {
    Codepoint::from_u32(c)
}
pub fn cp_from_char(c: char) -> Codepoint {
    Codepoint::from_char(c)
}
pub fn cp_to_u32(c: Codepoint) -> u32 {
    c.to_u32()
}
pub fn cp_to_char(c: Codepoint) -> Option<char> {
    c.to_char()
}
pub fn cp_to_char_lossy(c: Codepoint) -> char {
    c.to_char_lossy()
}
pub fn cp_eq_char(c: Codepoint, d: char) -> bool {
    c == d
}
pub fn clone_into(s: &Wtf8Str, b: &mut Wtf8String) {
    s.clone_into(b)
}
pub fn to_owned(s: &Wtf8Str) -> Wtf8String {
    ToOwned::to_owned(s)
}
pub fn new(s: &str) -> &Wtf8Str {
    Wtf8Str::new(s)
}
pub fn from_string(s: String) -> Wtf8String {
    Wtf8String::from_string(s)
}
pub fn from_borrowed(s: &str) -> Wtf8String {
    Wtf8String::from_borrowed(s)
}
pub fn into_bytes(s: Wtf8String) -> Vec<u8> {
    s.into_bytes()
}
pub fn as_wstr(s: &Wtf8String) -> &Wtf8Str {
    s.as_wstr()
}
pub fn as_bytes(s: &Wtf8Str) -> &[u8] {
    s.as_bytes()
}
pub fn eq_str(a: &Wtf8Str, b: &str) -> bool {
    a == b
}
pub fn eq(a: &Wtf8Str, b: &Wtf8Str) -> bool {
    a == b
}
pub fn eq_string(a: &Wtf8String, b: &Wtf8String) -> bool {
    a == b
}
pub fn eq_owned(a: &Wtf8String, b: &Wtf8Str) -> bool {
    a == b
}
pub fn eq_borrowed(a: &Wtf8Str, b: &Wtf8String) -> bool {
    a == b
}
pub fn eq_owned_str(a: &Wtf8String, b: &str) -> bool {
    a == b
}
pub struct Rec;
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        unimplemented!()
    }
    fn write(&mut self, _: &[u8]) {
        unimplemented!()
    }
}
pub fn hash_str(s: &Wtf8Str, h: &mut Rec) {
    s.hash(h)
}
pub fn hash_string(s: &Wtf8String, h: &mut Rec) {
    s.hash(h)
}
pub fn ascii_byte_at(s: &Wtf8Str, i: usize) -> u8 {
    s.ascii_byte_at(i)
}
pub fn collect(v: Vec<Codepoint>) -> Wtf8String {
    v.into_iter().collect()
}
pub fn extend(s: &mut Wtf8String, v: Vec<Codepoint>) {
    s.extend(v)
}
pub fn rest<'a>(it: &Wtf8CodePoints<'a>) -> &'a Wtf8Str {
    it.as_str()
}
pub fn clone(s: &Wtf8String) -> Wtf8String {
    s.clone()
}
pub fn eq_ref(a: &Wtf8String, b: &&Wtf8Str) -> bool {
    a == b
}
pub fn from_str_ref(s: &Wtf8Str) -> Wtf8String {
    Wtf8String::from(s)
}
pub fn len(s: &Wtf8Str) -> usize {
    s.len()
}
pub fn is_empty(s: &Wtf8Str) -> bool {
    s.is_empty()
}
