//! lru 0.12: a hash map over nodes of a doubly linked list.
use std::borrow::Borrow;
use std::collections::HashMap;
use std::hash::{BuildHasher, Hash, Hasher};
use std::num::NonZeroUsize;
use std::ptr::null_mut;

extern "C" {
    fn sim_cache_limit() -> usize;
}
#[derive(Clone, Copy, Default, Debug)]
pub struct DefaultHasher;
pub struct Fnv(u64);
impl Hasher for Fnv {
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
        }
    }
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
}
impl BuildHasher for DefaultHasher {
    type Hasher = Fnv;
    fn build_hasher(&self) -> Fnv {
        Fnv(0xcbf29ce484222325)
    }
}

struct KeyRef<K>(*const K);
#[repr(transparent)]
struct Wrap<Q: ?Sized>(Q);
impl<Q: ?Sized> Wrap<Q> {
    fn of(q: &Q) -> &Self {
        unsafe { &*(q as *const Q as *const Wrap<Q>) }
    }
}
impl<K: Hash> Hash for KeyRef<K> {
    fn hash<H: Hasher>(&self, h: &mut H) {
        unsafe { (*self.0).hash(h) }
    }
}
impl<K: PartialEq> PartialEq for KeyRef<K> {
    fn eq(&self, o: &Self) -> bool {
        unsafe { (*self.0).eq(&*o.0) }
    }
}
impl<K: Eq> Eq for KeyRef<K> {}
impl<Q: ?Sized + Hash> Hash for Wrap<Q> {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.0.hash(h)
    }
}
impl<Q: ?Sized + PartialEq> PartialEq for Wrap<Q> {
    fn eq(&self, o: &Self) -> bool {
        self.0.eq(&o.0)
    }
}
impl<Q: ?Sized + Eq> Eq for Wrap<Q> {}
impl<K: Borrow<Q>, Q: ?Sized> Borrow<Wrap<Q>> for KeyRef<K> {
    fn borrow(&self) -> &Wrap<Q> {
        Wrap::of(unsafe { (*self.0).borrow() })
    }
}

struct Node<K, V> {
    key: K,
    val: V,
    prev: *mut Node<K, V>,
    next: *mut Node<K, V>,
}
pub struct LruCache<K, V, S = DefaultHasher> {
    map: HashMap<KeyRef<K>, *mut Node<K, V>, S>,
    cap: NonZeroUsize,
    head: *mut Node<K, V>, // most recently used
    tail: *mut Node<K, V>,
}
unsafe impl<K: Send, V: Send, S: Send> Send for LruCache<K, V, S> {}
unsafe impl<K: Sync, V: Sync, S: Sync> Sync for LruCache<K, V, S> {}

impl<K: Hash + Eq, V> LruCache<K, V, DefaultHasher> {
    pub fn new(cap: NonZeroUsize) -> Self {
        Self::with_hasher(cap, DefaultHasher)
    }
}
impl<K: Hash + Eq, V, S: BuildHasher> LruCache<K, V, S> {
    pub fn with_hasher(cap: NonZeroUsize, s: S) -> Self {
        // the simulator may limit the capacity, so that caches overflow
        let cap = cap.min(NonZeroUsize::new(unsafe { sim_cache_limit() }).unwrap_or(cap));
        LruCache { map: HashMap::with_capacity_and_hasher(cap.get(), s), cap, head: null_mut(), tail: null_mut() }
    }
    pub fn len(&self) -> usize {
        self.map.len()
    }
    pub fn cap(&self) -> NonZeroUsize {
        self.cap
    }
    fn unlink(&mut self, n: *mut Node<K, V>) {
        unsafe {
            if (*n).prev.is_null() { self.head = (*n).next } else { (*(*n).prev).next = (*n).next }
            if (*n).next.is_null() { self.tail = (*n).prev } else { (*(*n).next).prev = (*n).prev }
        }
    }
    fn front(&mut self, n: *mut Node<K, V>) {
        unsafe {
            (*n).prev = null_mut();
            (*n).next = self.head;
            if self.head.is_null() { self.tail = n } else { (*self.head).prev = n }
        }
        self.head = n;
    }
    fn touch(&mut self, n: *mut Node<K, V>) {
        self.unlink(n);
        self.front(n);
    }
    fn insert(&mut self, key: K, val: V) -> *mut Node<K, V> {
        let n = if self.map.len() == self.cap.get() {
            let old = self.tail;
            unsafe { self.map.remove(&KeyRef(&raw const (*old).key)) };
            self.unlink(old);
            unsafe {
                (*old).key = key;
                (*old).val = val;
            }
            old
        } else {
            Box::into_raw(Box::new(Node { key, val, prev: null_mut(), next: null_mut() }))
        };
        self.front(n);
        self.map.insert(KeyRef(unsafe { &raw const (*n).key }), n);
        n
    }
    pub fn get<'a, Q: ?Sized + Hash + Eq>(&'a mut self, k: &Q) -> Option<&'a V>
    where
        K: Borrow<Q>,
    {
        let n = *self.map.get(Wrap::of(k))?;
        self.touch(n);
        Some(unsafe { &(*n).val })
    }
    pub fn peek<'a, Q: ?Sized + Hash + Eq>(&'a self, k: &Q) -> Option<&'a V>
    where
        K: Borrow<Q>,
    {
        self.map.get(Wrap::of(k)).map(|n| unsafe { &(**n).val })
    }
    pub fn contains<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> bool
    where
        K: Borrow<Q>,
    {
        self.map.contains_key(Wrap::of(k))
    }
    pub fn put(&mut self, k: K, v: V) -> Option<V> {
        if let Some(n) = self.map.get(&KeyRef(&raw const k)).copied() {
            self.touch(n);
            return Some(std::mem::replace(unsafe { &mut (*n).val }, v));
        }
        self.insert(k, v);
        None
    }
    pub fn get_or_insert<F: FnOnce() -> V>(&mut self, k: K, f: F) -> &V {
        if let Some(n) = self.map.get(&KeyRef(&raw const k)).copied() {
            self.touch(n);
            return unsafe { &(*n).val };
        }
        let v = f();
        let n = self.insert(k, v);
        unsafe { &(*n).val }
    }
    pub fn get_or_insert_ref<'a, Q, F>(&'a mut self, k: &Q, f: F) -> &'a V
    where
        K: Borrow<Q>,
        Q: ToOwned<Owned = K> + Hash + Eq + ?Sized,
        F: FnOnce() -> V,
    {
        if let Some(n) = self.map.get(Wrap::of(k)).copied() {
            self.touch(n);
            return unsafe { &(*n).val };
        }
        let v = f();
        let n = self.insert(k.to_owned(), v);
        unsafe { &(*n).val }
    }
    pub fn clear(&mut self) {
        self.map.clear();
        let mut n = self.head;
        while !n.is_null() {
            let next = unsafe { (*n).next };
            drop(unsafe { Box::from_raw(n) });
            n = next;
        }
        self.head = null_mut();
        self.tail = null_mut();
    }
}
impl<K, V, S> Drop for LruCache<K, V, S> {
    fn drop(&mut self) {
        let mut n = self.head;
        while !n.is_null() {
            let next = unsafe { (*n).next };
            drop(unsafe { Box::from_raw(n) });
            n = next;
        }
    }
}
