function C47_functions ()
  x = randn(vt_int(1,4), vt_int(1,4)) * vt_pick(1, 3, 8) ;
  vt_desc('special functions at %s', mat2str(x,5)) ;
  g = exp(-x.^2/2) / sqrt(2*pi) ;
  vt_near('gaussian', vl_gaussian(x), g, 1e-12) ;
  vt_near('dgaussian', vl_dgaussian(x), -x.*g, 1e-12) ;
  vt_near('ddgaussian', vl_ddgaussian(x), (x.^2-1).*g, 1e-12) ;
  s = vl_sigmoid(x) ;
  vt_near('sigmoid', s, 1 ./ (1 + exp(-x)), 1e-12) ;
  vt_near('sigmoid.symmetry', 1 - s, vl_sigmoid(-x), 1e-9) ;
  h = 1e-5 ;
  vt_near('dsigmoid', vl_dsigmoid(x), (vl_sigmoid(x+h) - vl_sigmoid(x-h)) / (2*h), 1e-6) ;
  r = vt_pick(0, rand, 1, .01) ;
  y = vl_rcos(r, x) ; w = zeros(size(x)) ;
  for i = 1:numel(x)
    a = abs(x(i)) ;
    if a < 1 - r, w(i) = 1 ; elseif a <= 1 && r > 0, w(i) = .5*(1 + cos(pi*(a-(1-r))/r)) ; elseif a <= 1, w(i) = 1 ; end
  end
  vt_near('rcos', double(y), w, 1e-9) ;
  vt_near('rcos.edge', double(vl_rcos(r, [0 1-r/2 2])), [1 .5+.5*(r==0) 0], 1e-9) ;
  % derivatives of a function whose derivatives are known
  d = vt_int(1,3) ; A = randn(d) ; A = A + A' ; b = randn(d,1) ; p = randn(d,1) ;
  f = @(v, k) [k*(v(:)'*A*v(:)/2 + b'*v(:)) ; sum(v(:))] ;
  J = vl_numder(f, p, 2) ;
  vt_near('numder', J, [2*(A*p + b)' ; ones(1,d)], 1e-4 * (1 + norm(A))) ;
  H = vl_numder2(f, p, 2) ;
  vt_near('numder2', squeeze(H(1,:,:)), squeeze(reshape(2*A, 1, d, d)), 1e-3 * (10 + norm(A) + norm(b)) ) ;
  % line specifications
  c = vt_pick('','b','g','r','c','m','y','k','w') ; m = vt_pick('','.','o','x','+','*','s','d','v','^','<','>','p','h') ; l = vt_pick('','-',':','-.','--') ;
  if strcmp(m, '.') , l = '' ; end
  spec = [c m l] ;
  if ~(isempty(m) && strcmp(l, '-.') && false)
    prop = vl_linespec2prop(spec) ; w = {} ;
    if c, w = [w {'Color', c}] ; end ; if m, w = [w {'Marker', m}] ; end ; if l, w = [w {'LineStyle', l}] ; end
    if ~isequal(prop, w) && ~(isempty(w) && isempty(prop)), vt_fail('linespec2prop', '''%s'' gives %s', spec, disp(prop)) ; end
  end
  n = vt_pick('Color','hello','zz','LineWidth') ;
  if ~isequal(vl_linespec2prop(n), {n}), vt_fail('linespec2prop.other', '''%s'' is altered', n) ; end
  vt_count('values', numel(x)) ; vt_seen(x, r, A) ;
end
