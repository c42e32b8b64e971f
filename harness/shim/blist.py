import bisect
class sortedset(object):
  def __init__(self, iterable=(), key=None):
    self._key = key
    self._l = []
    for v in iterable: self.add(v)
  def _k(self, v): return v if self._key is None else self._key(v)
  def _find(self, value):
    k = self._k(value)
    lo, hi = 0, len(self._l)
    while lo < hi:
      mid = (lo + hi)//2
      if self._l[mid][0] < k: lo = mid+1
      else: hi = mid
    i = lo
    while i < len(self._l) and not (k < self._l[i][0]):
      if self._l[i][1] == value: return i, True
      i += 1
    return i, False
  def add(self, v):
    i, found = self._find(v)
    if not found: self._l.insert(i, (self._k(v), v))
  def update(self, it):
    for v in it: self.add(v)
  def __contains__(self, v): return self._find(v)[1]
  def __len__(self): return len(self._l)
  def __iter__(self): return iter([v for _, v in self._l])
  def __getitem__(self, i):
    if isinstance(i, slice):
      r = sortedset(key=self._key); r._l = self._l[i]; return r
    return self._l[i][1]
  def pop(self, i=-1): return self._l.pop(i)[1]
  def copy(self):
    r = sortedset(key=self._key); r._l = list(self._l); return r
  def __repr__(self): return 'sortedset(%r)' % list(self)
