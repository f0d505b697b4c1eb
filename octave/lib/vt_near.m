function ok = vt_near (key, got, want, tol, varargin)
% got must have the size of want and differ by at most tol (absolute, scalar
% or array) plus 1e-12 relative; NaN and infinities must be at the same places
  ok = true ;
  what = '' ; if ~isempty(varargin), what = [' ' sprintf(varargin{:})] ; end
  if ~isequal(size(got), size(want))
    vt_fail([key '.size'], 'size %s instead of %s%s', mat2str(size(got)), mat2str(size(want)), what) ;
    ok = false ; return ;
  end
  if ~isreal(got)
    vt_fail([key '.complex'], 'complex values%s', what) ; ok = false ; return ;
  end
  g = double(got(:)) ; w = double(want(:)) ; t = tol(:) ;
  if any(isnan(g) ~= isnan(w))
    i = find(isnan(g) ~= isnan(w), 1) ;
    vt_fail([key '.nan'], 'element %d is %.9g instead of %.9g%s', i, g(i), w(i), what) ; ok = false ; return ;
  end
  bad = abs(g - w) > t + 1e-12 * abs(w) ;
  inf_ = isinf(g) | isinf(w) ;
  bad(inf_) = g(inf_) ~= w(inf_) ;
  bad(isnan(g)) = false ;
  if any(bad)
    i = find(bad, 1) ;
    vt_fail(key, 'element %d of %s is %.12g instead of %.12g%s', i, mat2str(size(got)), g(i), w(i), what) ;
    ok = false ;
  end
end
