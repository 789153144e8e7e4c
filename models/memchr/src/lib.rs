//! Model of the `memchr` crate used while encoding vimwiki-core: the same
//! functions, specified as plain byte loops instead of SIMD kernels selected
//! at run time by cpuid. Part of the trusted base (DESIGN.md).

extern "C" {
    #[link_name = "memchr"]
    fn c_memchr(p: *const u8, c: i32, n: usize) -> *const u8;
}

#[inline]
pub fn memchr(a: u8, h: &[u8]) -> Option<usize> {
    if h.is_empty() {
        return None;
    }
    // the C function; the engine interprets it itself
    let r = unsafe { c_memchr(h.as_ptr(), a as i32, h.len()) };
    if r.is_null() {
        None
    } else {
        Some(r as usize - h.as_ptr() as usize)
    }
}
#[inline]
pub fn memchr2(a: u8, b: u8, h: &[u8]) -> Option<usize> {
    let mut i = 0;
    while i < h.len() {
        if (h[i] == a) | (h[i] == b) {
            return Some(i);
        }
        i += 1;
    }
    None
}
#[inline]
pub fn memchr3(a: u8, b: u8, c: u8, h: &[u8]) -> Option<usize> {
    let mut i = 0;
    while i < h.len() {
        if (h[i] == a) | (h[i] == b) | (h[i] == c) {
            return Some(i);
        }
        i += 1;
    }
    None
}
#[inline]
pub fn memrchr(a: u8, h: &[u8]) -> Option<usize> {
    let mut i = h.len();
    while i > 0 {
        i -= 1;
        if h[i] == a {
            return Some(i);
        }
    }
    None
}
#[inline]
pub fn memrchr2(a: u8, b: u8, h: &[u8]) -> Option<usize> {
    let mut i = h.len();
    while i > 0 {
        i -= 1;
        if (h[i] == a) | (h[i] == b) {
            return Some(i);
        }
    }
    None
}
#[inline]
pub fn memrchr3(a: u8, b: u8, c: u8, h: &[u8]) -> Option<usize> {
    let mut i = h.len();
    while i > 0 {
        i -= 1;
        if (h[i] == a) | (h[i] == b) | (h[i] == c) {
            return Some(i);
        }
    }
    None
}

macro_rules! iter {
    ($name:ident, $f:ident, $r:ident, $make:ident, $rmake:ident, $($n:ident),+) => {
        #[derive(Clone, Debug)]
        pub struct $name<'h> {
            $($n: u8,)+
            h: &'h [u8],
            lo: usize,
            hi: usize,
        }
        impl<'h> $name<'h> {
            #[inline]
            pub fn new($($n: u8,)+ h: &'h [u8]) -> Self {
                $name { $($n,)+ h, lo: 0, hi: h.len() }
            }
        }
        impl<'h> Iterator for $name<'h> {
            type Item = usize;
            #[inline]
            fn next(&mut self) -> Option<usize> {
                match $f($(self.$n,)+ &self.h[self.lo..self.hi]) {
                    Some(p) => {
                        let at = self.lo + p;
                        self.lo = at + 1;
                        Some(at)
                    }
                    None => {
                        self.lo = self.hi;
                        None
                    }
                }
            }
        }
        impl<'h> DoubleEndedIterator for $name<'h> {
            #[inline]
            fn next_back(&mut self) -> Option<usize> {
                match $r($(self.$n,)+ &self.h[self.lo..self.hi]) {
                    Some(p) => {
                        let at = self.lo + p;
                        self.hi = at;
                        Some(at)
                    }
                    None => {
                        self.hi = self.lo;
                        None
                    }
                }
            }
        }
        impl<'h> std::iter::FusedIterator for $name<'h> {}
        #[inline]
        pub fn $make<'h>($($n: u8,)+ h: &'h [u8]) -> $name<'h> {
            $name::new($($n,)+ h)
        }
        #[inline]
        pub fn $rmake<'h>($($n: u8,)+ h: &'h [u8]) -> std::iter::Rev<$name<'h>> {
            $name::new($($n,)+ h).rev()
        }
    };
}
iter!(Memchr, memchr, memrchr, memchr_iter, memrchr_iter, a);
iter!(Memchr2, memchr2, memrchr2, memchr2_iter, memrchr2_iter, a, b);
iter!(Memchr3, memchr3, memrchr3, memchr3_iter, memrchr3_iter, a, b, c);

pub mod memmem {
    #[inline]
    pub fn find(h: &[u8], n: &[u8]) -> Option<usize> {
        let mut i = 0;
        while i + n.len() <= h.len() {
            if &h[i..i + n.len()] == n {
                return Some(i);
            }
            i += 1;
        }
        None
    }
    #[inline]
    pub fn rfind(h: &[u8], n: &[u8]) -> Option<usize> {
        if n.len() > h.len() {
            return None;
        }
        let mut i = h.len() - n.len() + 1;
        while i > 0 {
            i -= 1;
            if &h[i..i + n.len()] == n {
                return Some(i);
            }
        }
        None
    }
    #[derive(Clone, Debug)]
    pub struct FindIter<'h, 'n> {
        h: &'h [u8],
        n: &'n [u8],
        pos: usize,
    }
    impl<'h, 'n> Iterator for FindIter<'h, 'n> {
        type Item = usize;
        fn next(&mut self) -> Option<usize> {
            if self.pos > self.h.len() {
                return None;
            }
            let r = self.pos + find(&self.h[self.pos..], self.n)?;
            self.pos = r + self.n.len().max(1);
            Some(r)
        }
    }
    pub fn find_iter<'h, 'n, N: 'n + ?Sized + AsRef<[u8]>>(
        h: &'h [u8],
        n: &'n N,
    ) -> FindIter<'h, 'n> {
        FindIter { h, n: n.as_ref(), pos: 0 }
    }
    #[derive(Clone, Debug)]
    pub struct Finder<'n>(&'n [u8]);
    impl<'n> Finder<'n> {
        pub fn new<B: ?Sized + AsRef<[u8]>>(n: &'n B) -> Finder<'n> {
            Finder(n.as_ref())
        }
        pub fn find(&self, h: &[u8]) -> Option<usize> {
            find(h, self.0)
        }
        pub fn find_iter<'a, 'h>(&'a self, h: &'h [u8]) -> FindIter<'h, 'a> {
            FindIter { h, n: self.0, pos: 0 }
        }
    }
}
