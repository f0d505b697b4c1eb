function C41_structure ()
  % corner strength
  M = vt_int(2,12) ; N = vt_int(2,12) ;
  I = rand(M,N) * vt_pick(1,1,255) ; if rand < .2, I = round(I) ; end
  si = vt_pick(0, .5, 1, rand*3) ;
  noble = rand < .5 ; al = vt_pick([], .04, rand*.2) ;
  vt_desc('vl_harris %dx%d scale %g noble %d alpha %s', M, N, si, noble, mat2str(al)) ;
  if noble, [H,D] = vl_harris(I, si) ; else [H,D] = vl_harris(I, si, al) ; end
  if isempty(al), al = .04 ; end
  gx = zeros(M,N) ; gy = zeros(M,N) ;
  for y = 1:M, for x = 1:N
    a = max(x-1,1) ; b = min(x+1,N) ; gx(y,x) = (I(y,b) - I(y,a)) / (b-a) ;
    a = max(y-1,1) ; b = min(y+1,M) ; gy(y,x) = (I(b,x) - I(a,x)) / (b-a) ;
  end, end
  W = ceil(4*si) ; g = exp(-.5 * ((-W:W) / max(si, 1e-9)).^2) ; g = g / sum(g) ;
  sm = @(X) conv2(g', g, X(min(max(1-W:M+W,1),M), min(max(1-W:N+W,1),N)), 'valid') ;
  a = sm(gx.^2) ; b = sm(gx.*gy) ; c = sm(gy.^2) ;
  s = max(a(:) + c(:)) + 1e-9 ;
  lp = zeros(M,N) ; lm = lp ;
  for i = 1:M*N, e = sort(eig([a(i) b(i) ; b(i) c(i)])) ; lm(i) = max(e(1),0) ; lp(i) = e(2) ; end
  if noble
    ok = lp > 1e-6 * s ;
    vt_near('harris.noble', H(ok), 2 * lp(ok) .* lm(ok) ./ (lp(ok) + lm(ok)), 1e-5 * s) ;
    vt_near('harris.factors', D.sigmap(ok) .* D.rho(ok), H(ok), 1e-4 * s) ;
  else
    ok = lp > 1e-6 * s ;
    vt_near('harris.harris', H, lp.*lm - al * (lp + lm).^2, 1e-5 * s^2) ;
    vt_near('harris.factors', D.sigmap(ok).^2 .* D.rho(ok), H(ok), 1e-4 * s^2) ;
  end
  vt_near('harris.sigmap', D.sigmap, lp, 1e-5 * s) ;
  % whitening
  alpha = vt_pick(1, 1, .5, 2) ; cut = vt_pick([], [], .4, .8) ;
  args = {} ; if alpha ~= 1 || ~isempty(cut) || rand < .3, args = {alpha} ; end
  if ~isempty(cut) || rand < .2, args{1} = alpha ; args{2} = cut ; end
  J = vl_imwhiten(I, args{:}) ;
  f = @(n) min(0:n-1, n-(0:n-1)) / n ;
  rho = sqrt(f(M)'.^2 + f(N).^2) ;
  F = rho.^alpha ; if ~isempty(cut), F = F .* exp(-(rho / (cut/2)).^4) ; end
  EM = exp(-2i*pi*(0:M-1)'*(0:M-1)/M) ; EN = exp(-2i*pi*(0:N-1)'*(0:N-1)/N) ;
  w = real(conj(EM) * ((EM * I * EN) .* F) * conj(EN)) / (M*N) ;
  vt_near('imwhiten', J, w, 1e-9 * max(abs(I(:))), 'alpha %g cutoff %s', alpha, mat2str(cut)) ;
  vt_count('pixels', M*N) ; vt_seen(I, si, noble, al, alpha) ;
end
