function C41_warp ()
  H = vt_int(2,7) ; W = vt_int(2,7) ; K = vt_pick(1,3,2,4) ;
  I = rand(H,W,K) ;
  M = vt_int(1,5) ; N = vt_int(1,5) ;
  X = rand(M,N) * (W+1) ; Y = rand(M,N) * (H+1) ;
  vt_desc('vl_imwbackward %dx%dx%d at %dx%d points', H, W, K, M, N) ;
  if rand < .5
    xr = 1:W ; yr = 1:H ; sx = 1 ; sy = 1 ; ox = 0 ; oy = 0 ; args = {I} ;
  else
    sx = vt_pick(.5,2,1) ; sy = vt_pick(.5,3,1) ; ox = randn ; oy = randn ;
    xr = ox + sx*(1:W) ; yr = oy + sy*(1:H) ; args = {xr, yr, I} ;
  end
  if rand < .5
    J = vl_imwbackward(args{:}, ox + sx*X, oy + sy*Y) ; g = false ;
  else
    [J, Jx, Jy] = vl_imwbackward(args{:}, ox + sx*X, oy + sy*Y) ; g = true ;
  end
  R = nan(M,N,K) ; Rx = R ; Ry = R ;
  n = 0 ;
  for i = 1:M
    for j = 1:N
      x = X(i,j) ; y = Y(i,j) ;
      if x < 1 || y < 1 || x > W || y > H, continue ; end
      a = min(floor(x), W-1) ; b = min(floor(y), H-1) ; u = x - a ; v = y - b ; n = n + 1 ;
      for k = 1:K
        p = I(b,a,k) ; q = I(b,a+1,k) ; r = I(b+1,a,k) ; s = I(b+1,a+1,k) ;
        R(i,j,k) = (1-v)*((1-u)*p + u*q) + v*((1-u)*r + u*s) ;
        Rx(i,j,k) = ((1-v)*(q-p) + v*(s-r)) / sx ;
        Ry(i,j,k) = ((1-u)*(r-p) + u*(s-q)) / sy ;
      end
    end
  end
  near = abs(X - round(X)) < 1e-9 | abs(Y - round(Y)) < 1e-9 ;
  if any(near(:)), vt_skip() ; end
  vt_near('imwbackward', J, R, 1e-9) ;
  if g && sx == 1 && sy == 1
    in = ~isnan(R) ;
    vt_near('imwbackward.dx', Jx(in), Rx(in), 1e-8) ; vt_near('imwbackward.dy', Jy(in), Ry(in), 1e-8) ;
  end
  vt_count('interpolated', n) ; if n, vt_seen(I, X, Y) ; end
end
