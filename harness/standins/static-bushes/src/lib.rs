//! Stand-in for apendleton/static-bushes (the git dependency cannot be fetched here).
//! Points are kept sorted by (x, y, id); queries answer with the ids of the matching points.

pub struct KDBush<T> {
    pts: Vec<(T, T, usize)>,
}

pub struct KDBushBuilder<T> {
    pts: Vec<(T, T, usize)>,
}

impl<T: PartialOrd + Copy> KDBushBuilder<T> {
    pub fn new() -> Self {
        KDBushBuilder { pts: Vec::new() }
    }
    pub fn add(&mut self, p: &[T; 2]) -> usize {
        let id = self.pts.len();
        self.pts.push((p[0], p[1], id));
        id
    }
    pub fn finish(mut self) -> KDBush<T> {
        self.pts.sort_by(|a, b| a.partial_cmp(b).expect("points must be comparable"));
        KDBush { pts: self.pts }
    }
}

impl<T: PartialOrd + Copy> Default for KDBushBuilder<T> {
    fn default() -> Self {
        KDBushBuilder::new()
    }
}

impl<T: PartialOrd + Copy> KDBush<T> {
    pub fn len(&self) -> usize {
        self.pts.len()
    }
    pub fn is_empty(&self) -> bool {
        self.pts.is_empty()
    }
    fn first_at(&self, x: T, y: T) -> usize {
        let (mut lo, mut hi) = (0, self.pts.len());
        while lo < hi {
            let mid = (lo + hi) / 2;
            let p = &self.pts[mid];
            if p.0 < x || (p.0 == x && p.1 < y) {
                lo = mid + 1;
            } else {
                hi = mid;
            }
        }
        lo
    }
    pub fn exact<'a>(&'a self, x: T, y: T) -> impl Iterator<Item = usize> + 'a {
        self.pts[self.first_at(x, y)..]
            .iter()
            .take_while(move |p| p.0 == x && p.1 == y)
            .map(|p| p.2)
    }
    pub fn exact_as_vec(&self, x: T, y: T) -> Vec<usize> {
        self.exact(x, y).collect()
    }
    pub fn search_range<'a>(
        &'a self,
        minx: T,
        miny: T,
        maxx: T,
        maxy: T,
    ) -> impl Iterator<Item = usize> + 'a {
        self.pts
            .iter()
            .filter(move |p| p.0 >= minx && p.0 <= maxx && p.1 >= miny && p.1 <= maxy)
            .map(|p| p.2)
    }
    pub fn range<'a>(
        &'a self,
        minx: T,
        miny: T,
        maxx: T,
        maxy: T,
    ) -> impl Iterator<Item = usize> + 'a {
        self.search_range(minx, miny, maxx, maxy)
    }
}
