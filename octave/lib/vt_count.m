function vt_count (name, n)
  global T
  if nargin < 2, n = 1 ; end
  if isfield(T.counters, name), n = n + T.counters.(name) ; end
  T.counters.(name) = n ;
end
