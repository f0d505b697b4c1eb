function C41_affine ()
  d = vt_pick(2,3,2,3,1,4,5) ; k = vt_int(1,6) ;
  A = randn(d) ; T = randn(d,1) ; X = randn(d,k) ;
  vt_desc('vl_waffine in %d dimensions, %d points', d, k) ;
  W = zeros(d,k) ;
  for i = 1:d, for j = 1:k, W(i,j) = T(i) ; for l = 1:d, W(i,j) = W(i,j) + A(i,l)*X(l,j) ; end, end, end
  if d > 1 || rand < 2, vt_near('waffine', vl_waffine(A,T,X), W, 1e-9) ; end
  if d > 1
    c = cell(1,d) ; y = c ; s = vt_pick([k 1], [1 k], [k 1 1]) ;
    for i = 1:d, c{i} = reshape(X(i,:), s) ; end
    [y{:}] = vl_waffine(A, T, c{:}) ;
    for i = 1:d, vt_near('waffine.split', y{i}, reshape(W(i,:), s), 1e-9) ; end
  end
  if d == 2
    [gx, gy] = vl_dwaffine(reshape(X(1,:), [], 1), reshape(X(2,:), [], 1)) ;
    p = [A(:);T] ;
    for q = 1:6                                   % the warp is linear in its parameters
      e = zeros(6,1) ; e(q) = 1 ; E = reshape(e(1:4),2,2) ; t = e(5:6) ;
      dW = E*X + repmat(t,1,k) ;
      vt_near('dwaffine', [gx(:,q) gy(:,q)], dW', 1e-12) ;
    end
  end
  om = randn(3,1) * 3 ; v = randn(3,1) ;
  H = vl_hat(om) ;
  vt_near('hat.cross', H*v, cross(om, v), 1e-9) ; vt_near('hat.skew', H, -H', 0) ; vt_near('ihat', vl_ihat(H), om, 0) ;
  vt_count('points', k) ; vt_seen(A, T, X) ;
end
