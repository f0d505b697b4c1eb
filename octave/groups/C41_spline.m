function C41_spline ()
  K = vt_int(4,9) ; M = vt_int(1,5) ; N = vt_int(1,5) ;
  for t = 1:100                                   % control points in general position
    Y = rand(2,K) * vt_pick(1,5) ;
    D = sqrt((Y(1,:)' - Y(1,:)).^2 + (Y(2,:)' - Y(2,:)).^2) + 1e9*eye(K) ;
    if min(D(:)) > .1 && min(svd([ones(1,K);Y])) > .3, break ; end
  end
  if t == 100, vt_skip() ; end
  Yp = Y + .1 * randn(2,K) * min(D(:)) ;
  x1 = rand(M,N) * 2 ; x2 = rand(M,N) * 2 ;
  vt_desc('thin-plate spline, %d control points %s on %dx%d', K, mat2str(Y,4), M, N) ;
  U = vl_tpsu(Y, [x1(:)';x2(:)']) ;
  W = zeros(K, M*N) ;
  for i = 1:K, for j = 1:M*N
    r2 = (Y(1,i)-x1(j))^2 + (Y(2,i)-x2(j))^2 ; if r2 > 0, W(i,j) = r2*log(r2) ; end
  end, end
  vt_near('tpsu', U, W, 1e-9) ;
  [U2, dU] = vl_tpsu(Y, [x1(:)';x2(:)']) ;
  h = 1e-5 ;
  for j = 1:M*N
    p = [x1(j);x2(j)] ;
    for a = 1:2
      e = zeros(2,1) ; e(a) = h ;
      n = (vl_tpsu(Y, p+e) - vl_tpsu(Y, p-e)) / (2*h) ;
      vt_near('tpsu.derivative', dU(:,a,j), n, 1e-4) ;
    end
  end
  [phi, S] = vl_tps(x1, x2, Y) ;
  if ~isequal(size(reshape(phi, K+3, [])), [K+3 M*N]), vt_fail('tps.size', 'basis of size %s', mat2str(size(phi))) ; return ; end
  % the spline by solving for its coefficients
  P = [ones(K,1) Y'] ;
  G = vl_tpsu(Y,Y) ;
  sys = [G P ; P' zeros(3)] ;
  if cond(sys) > 1e8, vt_skip() ; end
  co = sys \ [Yp' ; zeros(3,2)] ;
  w = [W' ones(M*N,1) x1(:) x2(:)] * co ;
  [a,b] = vl_wtps(phi, Yp) ;
  vt_near('wtps', [a(:) b(:)], w, 1e-6) ;
  if ~isequal(size(a), [M N]), vt_fail('wtps.size', 'size %s', mat2str(size(a))) ; end
  % passes through its control points; affine maps are reproduced
  [a,b] = vl_wtps(vl_tps(Y(1,:), Y(2,:), Y), Yp) ;
  vt_near('wtps.interpolates', [a;b], Yp, 1e-6) ;
  R = randn(2) ; t = randn(2,1) ;
  [a,b] = vl_wtps(phi, R*Y + repmat(t,1,K)) ;
  vt_near('wtps.affine', [a(:)';b(:)'], R*[x1(:)';x2(:)'] + repmat(t,1,M*N), 1e-6) ;
  % bending energy of the coefficients
  e = 0 ; for c = 1:2, e = e + co(1:K,c)'*G*co(1:K,c) ; end
  vt_near('tps.stiffness', trace(Yp*S*Yp'), e, 1e-6 * max(1, abs(e))) ;
  % the inverse undoes small warps
  [q1,q2] = vl_wtps(phi, Yp) ;
  [z1,z2] = vl_witps(q1, q2, Y, Yp) ;
  [r1,r2] = vl_wtps(vl_tps(z1,z2,Y), Yp) ;
  in = isfinite(z1) & isfinite(z2) ;
  err = hypot(r1-q1, r2-q2) ;
  inside = x1 > min(Y(1,:)) & x1 < max(Y(1,:)) & x2 > min(Y(2,:)) & x2 < max(Y(2,:)) ;
  vt_count('inverse_points', nnz(inside)) ;
  vt_count('inverse_converged', nnz(inside & err < 1e-6)) ;
  if nnz(inside) && any(err(inside) > 1e-3), vt_fail('witps', 'the inverse misses its point by %g', max(err(inside))) ; end
  vt_count('points', M*N) ; vt_seen(Y, Yp, x1, x2) ;
end
