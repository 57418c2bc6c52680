//! Reference definitions of the standard-library adaptors the analysed code uses. They are never run: like the code
//! under analysis they are lowered to MIR and interpreted abstractly, so a loop and an iterator chain get the same meaning.
#![allow(unused, non_snake_case, unconditional_recursion)]

pub fn vf_get<'a, T>(s: &'a [T], i: usize) -> &'a T {
  loop {}
}

pub trait MIter {
  type Item;
  fn next(&mut self) -> Option<Self::Item>;
}
pub trait MBack: MIter {
  fn next_back(&mut self) -> Option<Self::Item>;
}

pub struct SliceIter<'a, T> {
  pub s: &'a [T],
  pub i: usize,
  pub n: usize,
}
impl<'a, T> MIter for SliceIter<'a, T> {
  type Item = &'a T;
  fn next(&mut self) -> Option<&'a T> {
    if self.i < self.n {
      let x = vf_get(self.s, self.i);
      self.i += 1;
      Some(x)
    } else {
      None
    }
  }
}
impl<'a, T> MBack for SliceIter<'a, T> {
  fn next_back(&mut self) -> Option<&'a T> {
    if self.i < self.n {
      self.n -= 1;
      Some(vf_get(self.s, self.n))
    } else {
      None
    }
  }
}

pub struct Range {
  pub start: usize,
  pub end: usize,
}
impl MIter for Range {
  type Item = usize;
  fn next(&mut self) -> Option<usize> {
    if self.start < self.end {
      let x = self.start;
      self.start += 1;
      Some(x)
    } else {
      None
    }
  }
}
impl MBack for Range {
  fn next_back(&mut self) -> Option<usize> {
    if self.start < self.end {
      self.end -= 1;
      Some(self.end)
    } else {
      None
    }
  }
}
pub struct RangeFrom {
  pub start: usize,
}
impl MIter for RangeFrom {
  type Item = usize;
  fn next(&mut self) -> Option<usize> {
    let x = self.start;
    self.start += 1;
    Some(x)
  }
}
pub struct RangeInclusive {
  pub start: i64,
  pub end: i64,
  pub exhausted: bool,
}
impl MIter for RangeInclusive {
  type Item = i64;
  fn next(&mut self) -> Option<i64> {
    if self.exhausted {
      return None;
    }
    if self.start <= self.end {
      let x = self.start;
      self.start += 1;
      Some(x)
    } else {
      None
    }
  }
}
impl MBack for RangeInclusive {
  fn next_back(&mut self) -> Option<i64> {
    if self.exhausted {
      return None;
    }
    if self.start <= self.end {
      let x = self.end;
      self.end -= 1;
      Some(x)
    } else {
      None
    }
  }
}

pub struct OptIter<T> {
  pub o: Option<T>,
}
impl<T> MIter for OptIter<T> {
  type Item = T;
  fn next(&mut self) -> Option<T> {
    self.o.take()
  }
}

pub struct Map<I, F> {
  pub it: I,
  pub f: F,
}
impl<I: MIter, B, F: FnMut(I::Item) -> B> MIter for Map<I, F> {
  type Item = B;
  fn next(&mut self) -> Option<B> {
    match self.it.next() {
      Some(x) => Some((self.f)(x)),
      None => None,
    }
  }
}
pub struct Filter<I, F> {
  pub it: I,
  pub f: F,
}
impl<I: MIter, F: FnMut(&I::Item) -> bool> MIter for Filter<I, F> {
  type Item = I::Item;
  fn next(&mut self) -> Option<I::Item> {
    loop {
      match self.it.next() {
        Some(x) => {
          if (self.f)(&x) {
            return Some(x);
          }
        }
        None => return None,
      }
    }
  }
}
pub struct FilterMap<I, F> {
  pub it: I,
  pub f: F,
}
impl<I: MIter, B, F: FnMut(I::Item) -> Option<B>> MIter for FilterMap<I, F> {
  type Item = B;
  fn next(&mut self) -> Option<B> {
    loop {
      match self.it.next() {
        Some(x) => {
          if let Some(y) = (self.f)(x) {
            return Some(y);
          }
        }
        None => return None,
      }
    }
  }
}
pub struct Enumerate<I> {
  pub it: I,
  pub k: usize,
}
impl<I: MIter> MIter for Enumerate<I> {
  type Item = (usize, I::Item);
  fn next(&mut self) -> Option<(usize, I::Item)> {
    match self.it.next() {
      Some(x) => {
        let k = self.k;
        self.k += 1;
        Some((k, x))
      }
      None => None,
    }
  }
}
pub struct TakeWhile<I, F> {
  pub it: I,
  pub f: F,
  pub done: bool,
}
impl<I: MIter, F: FnMut(&I::Item) -> bool> MIter for TakeWhile<I, F> {
  type Item = I::Item;
  fn next(&mut self) -> Option<I::Item> {
    if self.done {
      return None;
    }
    match self.it.next() {
      Some(x) => {
        if (self.f)(&x) {
          Some(x)
        } else {
          self.done = true;
          None
        }
      }
      None => None,
    }
  }
}
pub struct SkipWhile<I, F> {
  pub it: I,
  pub f: F,
  pub done: bool,
}
impl<I: MIter, F: FnMut(&I::Item) -> bool> MIter for SkipWhile<I, F> {
  type Item = I::Item;
  fn next(&mut self) -> Option<I::Item> {
    loop {
      match self.it.next() {
        Some(x) => {
          if self.done || !(self.f)(&x) {
            self.done = true;
            return Some(x);
          }
        }
        None => return None,
      }
    }
  }
}
pub struct Take<I> {
  pub it: I,
  pub k: usize,
}
impl<I: MIter> MIter for Take<I> {
  type Item = I::Item;
  fn next(&mut self) -> Option<I::Item> {
    if self.k == 0 {
      return None;
    }
    self.k -= 1;
    self.it.next()
  }
}
pub struct Skip<I> {
  pub it: I,
  pub k: usize,
}
impl<I: MIter> MIter for Skip<I> {
  type Item = I::Item;
  fn next(&mut self) -> Option<I::Item> {
    while self.k > 0 {
      self.k -= 1;
      if self.it.next().is_none() {
        return None;
      }
    }
    self.it.next()
  }
}
pub struct StepBy<I> {
  pub it: I,
  pub step: usize,
  pub first: bool,
}
impl<I: MIter> MIter for StepBy<I> {
  type Item = I::Item;
  fn next(&mut self) -> Option<I::Item> {
    if self.first {
      self.first = false;
      return self.it.next();
    }
    let mut k = 1;
    while k < self.step {
      if self.it.next().is_none() {
        return None;
      }
      k += 1;
    }
    self.it.next()
  }
}
pub struct Rev<I> {
  pub it: I,
}
impl<I: MBack> MIter for Rev<I> {
  type Item = I::Item;
  fn next(&mut self) -> Option<I::Item> {
    self.it.next_back()
  }
}
impl<I: MBack> MBack for Rev<I> {
  fn next_back(&mut self) -> Option<I::Item> {
    self.it.next()
  }
}
pub struct Zip<I, J> {
  pub a: I,
  pub b: J,
}
impl<I: MIter, J: MIter> MIter for Zip<I, J> {
  type Item = (I::Item, J::Item);
  fn next(&mut self) -> Option<(I::Item, J::Item)> {
    match self.a.next() {
      None => None,
      Some(x) => match self.b.next() {
        None => None,
        Some(y) => Some((x, y)),
      },
    }
  }
}
pub struct Chain<I, J> {
  pub a: I,
  pub b: J,
  pub first: bool,
}
impl<I: MIter, J: MIter<Item = I::Item>> MIter for Chain<I, J> {
  type Item = I::Item;
  fn next(&mut self) -> Option<I::Item> {
    if self.first {
      match self.a.next() {
        Some(x) => return Some(x),
        None => self.first = false,
      }
    }
    self.b.next()
  }
}
pub struct Peekable<I: MIter> {
  pub it: I,
  pub p: Option<Option<I::Item>>,
}
impl<I: MIter> MIter for Peekable<I> {
  type Item = I::Item;
  fn next(&mut self) -> Option<I::Item> {
    match self.p.take() {
      Some(v) => v,
      None => self.it.next(),
    }
  }
}
pub fn Iterator_peekable<I: MIter>(it: I) -> Peekable<I> {
  Peekable { it, p: None }
}

pub fn Iterator_map<I, F>(it: I, f: F) -> Map<I, F> {
  Map { it, f }
}
pub fn Iterator_filter<I, F>(it: I, f: F) -> Filter<I, F> {
  Filter { it, f }
}
pub fn Iterator_filter_map<I, F>(it: I, f: F) -> FilterMap<I, F> {
  FilterMap { it, f }
}
pub fn Iterator_enumerate<I>(it: I) -> Enumerate<I> {
  Enumerate { it, k: 0 }
}
pub fn Iterator_take_while<I, F>(it: I, f: F) -> TakeWhile<I, F> {
  TakeWhile { it, f, done: false }
}
pub fn Iterator_skip_while<I, F>(it: I, f: F) -> SkipWhile<I, F> {
  SkipWhile { it, f, done: false }
}
pub fn Iterator_take<I>(it: I, k: usize) -> Take<I> {
  Take { it, k }
}
pub fn Iterator_skip<I>(it: I, k: usize) -> Skip<I> {
  Skip { it, k }
}
pub fn Iterator_step_by<I>(it: I, step: usize) -> StepBy<I> {
  if step == 0 {
    panic!("step_by of zero");
  }
  StepBy { it, step, first: true }
}
pub fn Iterator_rev<I>(it: I) -> Rev<I> {
  Rev { it }
}
pub fn Iterator_zip<I, J>(a: I, b: J) -> Zip<I, J> {
  Zip { a, b }
}
pub fn Iterator_chain<I, J>(a: I, b: J) -> Chain<I, J> {
  Chain { a, b, first: true }
}
pub fn Iterator_fold<I: MIter, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
  let mut acc = init;
  loop {
    match it.next() {
      Some(x) => acc = f(acc, x),
      None => return acc,
    }
  }
}
pub fn Iterator_for_each<I: MIter, F: FnMut(I::Item)>(mut it: I, mut f: F) {
  loop {
    match it.next() {
      Some(x) => f(x),
      None => return,
    }
  }
}
pub fn Iterator_any<I: MIter, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
  loop {
    match it.next() {
      Some(x) => {
        if f(x) {
          return true;
        }
      }
      None => return false,
    }
  }
}
pub fn Iterator_all<I: MIter, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
  loop {
    match it.next() {
      Some(x) => {
        if !f(x) {
          return false;
        }
      }
      None => return true,
    }
  }
}
pub fn Iterator_position<I: MIter, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> Option<usize> {
  let mut k = 0;
  loop {
    match it.next() {
      Some(x) => {
        if f(x) {
          return Some(k);
        }
        k += 1;
      }
      None => return None,
    }
  }
}
pub fn Iterator_find<I: MIter, F: FnMut(&I::Item) -> bool>(it: &mut I, mut f: F) -> Option<I::Item> {
  loop {
    match it.next() {
      Some(x) => {
        if f(&x) {
          return Some(x);
        }
      }
      None => return None,
    }
  }
}
pub fn Iterator_find_map<I: MIter, B, F: FnMut(I::Item) -> Option<B>>(it: &mut I, mut f: F) -> Option<B> {
  loop {
    match it.next() {
      Some(x) => {
        if let Some(y) = f(x) {
          return Some(y);
        }
      }
      None => return None,
    }
  }
}
pub fn Iterator_count<I: MIter>(mut it: I) -> usize {
  let mut k = 0;
  loop {
    match it.next() {
      Some(_) => k += 1,
      None => return k,
    }
  }
}
pub fn Iterator_last<I: MIter>(mut it: I) -> Option<I::Item> {
  let mut r = None;
  loop {
    match it.next() {
      Some(x) => r = Some(x),
      None => return r,
    }
  }
}
pub fn Iterator_nth<I: MIter>(it: &mut I, n: usize) -> Option<I::Item> {
  let mut k = 0;
  while k < n {
    if it.next().is_none() {
      return None;
    }
    k += 1;
  }
  it.next()
}
pub fn Iterator_collect_vec<I: MIter>(mut it: I) -> Vec<I::Item> {
  let mut v = Vec::new();
  loop {
    match it.next() {
      Some(x) => v.push(x),
      None => return v,
    }
  }
}
pub fn Iterator_collect_string<I: MIter<Item = char>>(mut it: I) -> String {
  let mut v = String::new();
  loop {
    match it.next() {
      Some(x) => v.push(x),
      None => return v,
    }
  }
}
pub fn Iterator_collect_map<K: std::hash::Hash + Eq, V, I: MIter<Item = (K, V)>>(mut it: I) -> std::collections::HashMap<K, V> {
  let mut v = std::collections::HashMap::new();
  loop {
    match it.next() {
      Some((k, x)) => {
        v.insert(k, x);
      }
      None => return v,
    }
  }
}
pub fn Iterator_collect_result<T, E, I: MIter<Item = Result<T, E>>>(mut it: I) -> Result<Vec<T>, E> {
  let mut v = Vec::new();
  loop {
    match it.next() {
      Some(Ok(x)) => v.push(x),
      Some(Err(e)) => return Err(e),
      None => return Ok(v),
    }
  }
}
pub fn Iterator_collect_option<T, I: MIter<Item = Option<T>>>(mut it: I) -> Option<Vec<T>> {
  let mut v = Vec::new();
  loop {
    match it.next() {
      Some(Some(x)) => v.push(x),
      Some(None) => return None,
      None => return Some(v),
    }
  }
}
pub struct FlatMap<I, J, F> {
  pub it: I,
  pub cur: Option<J>,
  pub f: F,
}
impl<I: MIter, J: MIter, F: FnMut(I::Item) -> J> MIter for FlatMap<I, J, F> {
  type Item = J::Item;
  fn next(&mut self) -> Option<J::Item> {
    loop {
      if let Some(j) = &mut self.cur {
        if let Some(x) = j.next() {
          return Some(x);
        }
        self.cur = None;
      }
      match self.it.next() {
        Some(x) => self.cur = Some(vf_iter((self.f)(x))),
        None => return None,
      }
    }
  }
}
pub struct Flatten<I, J> {
  pub it: I,
  pub cur: Option<J>,
}
impl<J: MIter, I: MIter<Item = J>> MIter for Flatten<I, J> {
  type Item = J::Item;
  fn next(&mut self) -> Option<J::Item> {
    loop {
      if let Some(j) = &mut self.cur {
        if let Some(x) = j.next() {
          return Some(x);
        }
        self.cur = None;
      }
      match self.it.next() {
        Some(x) => self.cur = Some(vf_iter(x)),
        None => return None,
      }
    }
  }
}
pub struct MapWhile<I, F> {
  pub it: I,
  pub f: F,
}
impl<I: MIter, B, F: FnMut(I::Item) -> Option<B>> MIter for MapWhile<I, F> {
  type Item = B;
  fn next(&mut self) -> Option<B> {
    match self.it.next() {
      Some(x) => (self.f)(x),
      None => None,
    }
  }
}
pub struct Inspect<I, F> {
  pub it: I,
  pub f: F,
}
impl<I: MIter, F: FnMut(&I::Item)> MIter for Inspect<I, F> {
  type Item = I::Item;
  fn next(&mut self) -> Option<I::Item> {
    match self.it.next() {
      Some(x) => {
        (self.f)(&x);
        Some(x)
      }
      None => None,
    }
  }
}
pub struct Scan<I, S, F> {
  pub it: I,
  pub s: S,
  pub f: F,
}
impl<I: MIter, S, B, F: FnMut(&mut S, I::Item) -> Option<B>> MIter for Scan<I, S, F> {
  type Item = B;
  fn next(&mut self) -> Option<B> {
    match self.it.next() {
      Some(x) => (self.f)(&mut self.s, x),
      None => None,
    }
  }
}
/// the iterator of a value that is an iterator or can be turned into one
pub fn vf_iter<J>(j: J) -> J {
  j
}
pub fn Iterator_flat_map<I, J, F>(it: I, f: F) -> FlatMap<I, J, F> {
  FlatMap { it, cur: None, f }
}
pub fn Iterator_flatten<I, J>(it: I) -> Flatten<I, J> {
  Flatten { it, cur: None }
}
pub fn Iterator_map_while<I, F>(it: I, f: F) -> MapWhile<I, F> {
  MapWhile { it, f }
}
pub fn Iterator_inspect<I, F>(it: I, f: F) -> Inspect<I, F> {
  Inspect { it, f }
}
pub fn Iterator_scan<I, S, F>(it: I, s: S, f: F) -> Scan<I, S, F> {
  Scan { it, s, f }
}
pub fn Iterator_reduce<I: MIter, F: FnMut(I::Item, I::Item) -> I::Item>(mut it: I, mut f: F) -> Option<I::Item> {
  let mut acc = match it.next() {
    Some(x) => x,
    None => return None,
  };
  loop {
    match it.next() {
      Some(x) => acc = f(acc, x),
      None => return Some(acc),
    }
  }
}
pub fn Iterator_try_fold_option<I: MIter, B, F: FnMut(B, I::Item) -> Option<B>>(it: &mut I, init: B, mut f: F) -> Option<B> {
  let mut acc = init;
  loop {
    match it.next() {
      Some(x) => match f(acc, x) {
        Some(y) => acc = y,
        None => return None,
      },
      None => return Some(acc),
    }
  }
}
pub fn Iterator_try_fold_result<I: MIter, B, E, F: FnMut(B, I::Item) -> Result<B, E>>(it: &mut I, init: B, mut f: F) -> Result<B, E> {
  let mut acc = init;
  loop {
    match it.next() {
      Some(x) => match f(acc, x) {
        Ok(y) => acc = y,
        Err(e) => return Err(e),
      },
      None => return Ok(acc),
    }
  }
}
pub fn Iterator_try_for_each_option<I: MIter, F: FnMut(I::Item) -> Option<()>>(it: &mut I, mut f: F) -> Option<()> {
  loop {
    match it.next() {
      Some(x) => match f(x) {
        Some(()) => {}
        None => return None,
      },
      None => return Some(()),
    }
  }
}
pub fn Iterator_try_for_each_result<I: MIter, E, F: FnMut(I::Item) -> Result<(), E>>(it: &mut I, mut f: F) -> Result<(), E> {
  loop {
    match it.next() {
      Some(x) => match f(x) {
        Ok(()) => {}
        Err(e) => return Err(e),
      },
      None => return Ok(()),
    }
  }
}
pub fn Iterator_partition<I: MIter, F: FnMut(&I::Item) -> bool>(mut it: I, mut f: F) -> (Vec<I::Item>, Vec<I::Item>) {
  let mut a = Vec::new();
  let mut b = Vec::new();
  loop {
    match it.next() {
      Some(x) => {
        if f(&x) {
          a.push(x)
        } else {
          b.push(x)
        }
      }
      None => return (a, b),
    }
  }
}
pub fn Iterator_unzip<A, B, I: MIter<Item = (A, B)>>(mut it: I) -> (Vec<A>, Vec<B>) {
  let mut a = Vec::new();
  let mut b = Vec::new();
  loop {
    match it.next() {
      Some((x, y)) => {
        a.push(x);
        b.push(y);
      }
      None => return (a, b),
    }
  }
}
pub fn Iterator_sum<I: MIter<Item = i64>>(mut it: I) -> i64 {
  let mut v = 0;
  loop {
    match it.next() {
      Some(x) => v += x,
      None => return v,
    }
  }
}

// ------------------------------------------------------------------ Option / Result
pub fn Option_map<T, U, F: FnOnce(T) -> U>(o: Option<T>, f: F) -> Option<U> {
  match o {
    Some(x) => Some(f(x)),
    None => None,
  }
}
pub fn Option_map_or<T, U, F: FnOnce(T) -> U>(o: Option<T>, d: U, f: F) -> U {
  match o {
    Some(x) => f(x),
    None => d,
  }
}
pub fn Option_map_or_else<T, U, D: FnOnce() -> U, F: FnOnce(T) -> U>(o: Option<T>, d: D, f: F) -> U {
  match o {
    Some(x) => f(x),
    None => d(),
  }
}
pub fn Option_and_then<T, U, F: FnOnce(T) -> Option<U>>(o: Option<T>, f: F) -> Option<U> {
  match o {
    Some(x) => f(x),
    None => None,
  }
}
pub fn Option_and<T, U>(o: Option<T>, p: Option<U>) -> Option<U> {
  match o {
    Some(_) => p,
    None => None,
  }
}
pub fn Option_or<T>(o: Option<T>, p: Option<T>) -> Option<T> {
  match o {
    Some(x) => Some(x),
    None => p,
  }
}
pub fn Option_or_else<T, F: FnOnce() -> Option<T>>(o: Option<T>, f: F) -> Option<T> {
  match o {
    Some(x) => Some(x),
    None => f(),
  }
}
pub fn Option_filter<T, F: FnOnce(&T) -> bool>(o: Option<T>, f: F) -> Option<T> {
  match o {
    Some(x) => {
      if f(&x) {
        Some(x)
      } else {
        None
      }
    }
    None => None,
  }
}
pub fn Option_is_some<T>(o: &Option<T>) -> bool {
  match o {
    Some(_) => true,
    None => false,
  }
}
pub fn Option_is_some_and<T, F: FnOnce(T) -> bool>(o: Option<T>, f: F) -> bool {
  match o {
    Some(x) => f(x),
    None => false,
  }
}
pub fn Option_is_none<T>(o: &Option<T>) -> bool {
  match o {
    Some(_) => false,
    None => true,
  }
}
pub fn Option_unwrap<T>(o: Option<T>) -> T {
  match o {
    Some(x) => x,
    None => panic!("called `Option::unwrap()` on a `None` value"),
  }
}
pub fn Option_expect<T>(o: Option<T>, m: &str) -> T {
  match o {
    Some(x) => x,
    None => panic!("expect failed on None"),
  }
}
pub fn Option_unwrap_or<T>(o: Option<T>, d: T) -> T {
  match o {
    Some(x) => x,
    None => d,
  }
}
pub fn Option_unwrap_or_else<T, F: FnOnce() -> T>(o: Option<T>, f: F) -> T {
  match o {
    Some(x) => x,
    None => f(),
  }
}
pub fn Option_unwrap_or_default<T: Default>(o: Option<T>) -> T {
  match o {
    Some(x) => x,
    None => T::default(),
  }
}
pub fn Option_ok_or<T, E>(o: Option<T>, e: E) -> Result<T, E> {
  match o {
    Some(x) => Ok(x),
    None => Err(e),
  }
}
pub fn Option_ok_or_else<T, E, F: FnOnce() -> E>(o: Option<T>, f: F) -> Result<T, E> {
  match o {
    Some(x) => Ok(x),
    None => Err(f()),
  }
}
pub fn Option_iter<T>(o: Option<T>) -> OptIter<T> {
  OptIter { o }
}
pub fn Option_flatten<T>(o: Option<Option<T>>) -> Option<T> {
  match o {
    Some(x) => x,
    None => None,
  }
}
pub fn Option_zip<T, U>(o: Option<T>, p: Option<U>) -> Option<(T, U)> {
  match o {
    Some(x) => match p {
      Some(y) => Some((x, y)),
      None => None,
    },
    None => None,
  }
}
pub fn Option_take<T>(o: &mut Option<T>) -> Option<T> {
  std::mem::replace(o, None)
}
pub fn Option_replace<T>(o: &mut Option<T>, v: T) -> Option<T> {
  std::mem::replace(o, Some(v))
}
pub fn Option_get_or_insert_with<T, F: FnOnce() -> T>(o: &mut Option<T>, f: F) -> &mut T {
  if let None = *o {
    *o = Some(f());
  }
  match o {
    Some(x) => x,
    None => loop {},
  }
}
pub fn Result_map<T, E, U, F: FnOnce(T) -> U>(o: Result<T, E>, f: F) -> Result<U, E> {
  match o {
    Ok(x) => Ok(f(x)),
    Err(e) => Err(e),
  }
}
pub fn Result_map_err<T, E, U, F: FnOnce(E) -> U>(o: Result<T, E>, f: F) -> Result<T, U> {
  match o {
    Ok(x) => Ok(x),
    Err(e) => Err(f(e)),
  }
}
pub fn Result_and_then<T, E, U, F: FnOnce(T) -> Result<U, E>>(o: Result<T, E>, f: F) -> Result<U, E> {
  match o {
    Ok(x) => f(x),
    Err(e) => Err(e),
  }
}
pub fn Result_or_else<T, E, U, F: FnOnce(E) -> Result<T, U>>(o: Result<T, E>, f: F) -> Result<T, U> {
  match o {
    Ok(x) => Ok(x),
    Err(e) => f(e),
  }
}
pub fn Result_map_or<T, E, U, F: FnOnce(T) -> U>(o: Result<T, E>, d: U, f: F) -> U {
  match o {
    Ok(x) => f(x),
    Err(_) => d,
  }
}
pub fn Result_map_or_else<T, E, U, D: FnOnce(E) -> U, F: FnOnce(T) -> U>(o: Result<T, E>, d: D, f: F) -> U {
  match o {
    Ok(x) => f(x),
    Err(e) => d(e),
  }
}
pub fn Result_unwrap<T, E>(o: Result<T, E>) -> T {
  match o {
    Ok(x) => x,
    Err(_) => panic!("called `Result::unwrap()` on an `Err` value"),
  }
}
pub fn Result_expect<T, E>(o: Result<T, E>, m: &str) -> T {
  match o {
    Ok(x) => x,
    Err(_) => panic!("expect failed on Err"),
  }
}
pub fn Result_unwrap_or<T, E>(o: Result<T, E>, d: T) -> T {
  match o {
    Ok(x) => x,
    Err(_) => d,
  }
}
pub fn Result_unwrap_or_else<T, E, F: FnOnce(E) -> T>(o: Result<T, E>, f: F) -> T {
  match o {
    Ok(x) => x,
    Err(e) => f(e),
  }
}
pub fn Result_unwrap_or_default<T: Default, E>(o: Result<T, E>) -> T {
  match o {
    Ok(x) => x,
    Err(_) => T::default(),
  }
}
pub fn Result_ok<T, E>(o: Result<T, E>) -> Option<T> {
  match o {
    Ok(x) => Some(x),
    Err(_) => None,
  }
}
pub fn Result_err<T, E>(o: Result<T, E>) -> Option<E> {
  match o {
    Ok(_) => None,
    Err(e) => Some(e),
  }
}
pub fn Result_is_ok<T, E>(o: &Result<T, E>) -> bool {
  match o {
    Ok(_) => true,
    Err(_) => false,
  }
}
pub fn Result_is_err<T, E>(o: &Result<T, E>) -> bool {
  match o {
    Ok(_) => false,
    Err(_) => true,
  }
}
pub fn bool_then<T, F: FnOnce() -> T>(b: bool, f: F) -> Option<T> {
  if b {
    Some(f())
  } else {
    None
  }
}
pub fn bool_then_some<T>(b: bool, v: T) -> Option<T> {
  if b {
    Some(v)
  } else {
    None
  }
}
pub fn Range_contains(r: &Range, x: &usize) -> bool {
  r.start <= *x && *x < r.end
}
pub fn RangeInclusive_contains(r: &RangeInclusive, x: &i64) -> bool {
  r.start <= *x && *x <= r.end
}
