function C46_whist ()
  nd = vt_int(1,3) ;
  sz = [1 1 1] ; for d = 1:nd, sz(d) = vt_int(1,5) ; end
  x = reshape(round(randn(sz)*4)/2, sz) ;
  if rand < .3, x(rand(sz) < .2) = NaN ; end
  if rand < .1, x(rand(sz) < .2) = inf ; end
  edges = unique(round(randn(1, vt_int(1,6))*4)/2) ;
  if rand < .2, w = rand ; W = w * ones(sz) ; else w = rand(sz) ; W = w ; end
  if rand < .3 && ~isscalar(w), w(rand(sz) < .2) = NaN ; W = w ; end
  args = {} ; s = size(x) ;
  f = find(s > 1) ; if isempty(f), dim = 2 ; else dim = f(1) ; end
  if rand < .5, dim = vt_int(1, numel(s)) ; args = {dim} ; end
  if numel(edges) == 1 && dim > 2, vt_skip() ; end     % Octave and MATLAB drop the dimension, vl_binsum refuses it
  vt_desc('vl_whistc(%s, w, %s, %s) w=%s', mat2str(x(:)',3), mat2str(edges), disp(args), mat2str(w(:)',3)) ;
  h = vl_whistc(x, w, edges, args{:}) ;
  so = s ; so(dim) = numel(edges) ; R = zeros(so) ;
  for i = 1:numel(x)
    [a,b,c] = ind2sub([s 1], i) ; sub = [a b c] ;
    if isnan(x(i)) || isnan(W(i)), continue ; end
    k = find(edges <= x(i), 1, 'last') ;
    if isempty(k) || (k == numel(edges) && x(i) > edges(end)), continue ; end
    sub(dim) = k ;
    R(sub(1),sub(2),sub(3)) = R(sub(1),sub(2),sub(3)) + W(i) ;
  end
  vt_near('whistc', h, R, 1e-9) ;
  % marginals
  nd = vt_int(2,4) ; sz = ones(1,nd) ; for d = 1:nd, sz(d) = vt_int(1,4) ; end
  if sz(end) == 1, sz(end) = 2 ; end
  H = rand(sz) ; p = randperm(nd) ; dims = p(1:vt_int(1,nd)) ;
  if rand < .3, dims = dims' ; end
  G = vl_histmarg(H, dims) ;
  dims = dims(:)' ;
  os = sz(dims) ; if numel(os) == 1, os = [os 1] ; end
  R = zeros(os) ;
  for i = 1:numel(H)
    sub = cell(1,nd) ; [sub{:}] = ind2sub(sz, i) ; sub = [sub{:}] ;
    t = num2cell([sub(dims) 1]) ; R(t{:}) = R(t{:}) + H(i) ;
  end
  vt_near('histmarg', G, R, 1e-9, 'dims %s of %s', mat2str(dims), mat2str(sz)) ;
  vt_count('samples', numel(x)) ; vt_seen(x, W, edges, dim) ;
end
