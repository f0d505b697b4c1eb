function C41_colour ()
  M = vt_int(1,5) ; N = vt_int(1,5) ;
  I = rand(M,N,3) ;
  u = rand ;
  if u < .3, I = round(I) ; elseif u < .4, I = I * .02 ; elseif u < .5, I = repmat(rand(M,N), [1 1 3]) ; end
  if rand < .2, I(vt_int(1,M),vt_int(1,N),:) = vt_pick(0,1) ; end
  cls = vt_pick('double','double','uint8') ;
  if strcmp(cls, 'uint8'), in = uint8(round(I*255)) ; I = double(in)/255 ; else in = I ; end
  ws = vt_pick('CIE','Adobe','') ;
  vt_desc('colours %s working space ''%s'' image %s', cls, ws, mat2str(I(:)',4)) ;
  if isempty(ws), J = vl_rgb2xyz(in) ; K = vl_xyz2rgb(J) ; ws = 'CIE' ;
  else J = vl_rgb2xyz(in, ws) ; K = vl_xyz2rgb(J, ws) ; end
  % published matrices of the two spaces, built from the primaries and the white
  if strcmp(ws, 'CIE')
    prim = [.735 .265; .274 .717; .167 .009] ; white = [1/3 1/3] ;
  else
    prim = [.64 .33; .21 .71; .15 .06] ; white = [.312713 .329016] ;
  end
  C = [prim(:,1)./prim(:,2), ones(3,1), (1-sum(prim,2))./prim(:,2)]' ;
  W = [white(1)/white(2) ; 1 ; (1-sum(white))/white(2)] ;
  A = C * diag(C \ W) ;
  lin = reshape(I, [], 3) .^ 2.2 ;
  X = reshape((A * lin')', M, N, 3) ;
  vt_near('rgb2xyz', J, X, 2e-3) ;
  vt_near('round_trip', K, I, 3e-5) ;
  % grey is neutral: the colour of white at every brightness
  g = vl_rgb2xyz(cat(3, .5, .5, .5), ws) ; w = vl_rgb2xyz(cat(3,1,1,1), ws) ;
  vt_near('neutral', g(:), w(:) * .5^2.2, 1e-9) ;

  il = vt_pick('A','B','C','E','D50','D55','D65','D75','D93','') ;
  T = struct('A',[.44757 .40745],'B',[.34842 .35161],'C',[.31006 .31616],'E',[1/3 1/3],'D50',[.34567 .3585], ...
             'D55',[.33242 .34743],'D65',[.312713 .329016],'D75',[.29902 .31485],'D93',[.2848 .2932]) ;
  if isempty(il), c = T.E ; else c = T.(il) ; end
  if ~isempty(il) && rand < .3, il = lower(il) ; end
  if isempty(il), lab = vl_xyz2lab(J) ; luv = vl_xyz2luv(J) ;
  else lab = vl_xyz2lab(J, il) ; luv = vl_xyz2luv(J, il) ; end
  white = [c(1)/c(2) 1 (1-sum(c))/c(2)] ;
  x = J(:,:,1)/white(1) ; y = J(:,:,2) ; z = J(:,:,3)/white(3) ;
  L = lightness(y) ;
  vt_near('lab.L', lab(:,:,1), L, 2e-2) ;
  vt_near('lab.a', lab(:,:,2), 500*(f(x)-f(y)), 8e-2, 'illuminant %s', il) ;
  vt_near('lab.b', lab(:,:,3), 200*(f(y)-f(z)), 8e-2, 'illuminant %s', il) ;
  vt_near('luv.L', luv(:,:,1), L, 2e-2) ;
  d = white(1) + 15 + 3*white(3) ;
  D = J(:,:,1) + 15*J(:,:,2) + 3*J(:,:,3) ;
  ok = D > 1e-12 ;
  u = 13*L.*(4*J(:,:,1)./D - 4*white(1)/d) ; v = 13*L.*(9*J(:,:,2)./D - 9/d) ;
  gu = luv(:,:,2) ; gv = luv(:,:,3) ;
  vt_near('luv.u', gu(ok), u(ok), 8e-2, 'illuminant %s', il) ;
  vt_near('luv.v', gv(ok), v(ok), 8e-2, 'illuminant %s', il) ;
  % the white of the illuminant has no chroma
  wi = reshape(white, 1, 1, 3) ;
  if isempty(il), a = vl_xyz2lab(wi) ; b = vl_xyz2luv(wi) ; else a = vl_xyz2lab(wi, il) ; b = vl_xyz2luv(wi, il) ; end
  vt_near('white.lab', a(:), [100;0;0], 8e-2, 'illuminant %s', il) ;
  vt_near('white.luv', b(:), [100;0;0], 8e-2, 'illuminant %s', il) ;
  vt_count('colours', M*N) ; vt_count(['illuminant_' upper([il 'E'])(1:max(1,numel(il)))]) ;
  vt_seen(I, ws, il) ;
end

function y = f (t)
  y = t .^ (1/3) ; s = t <= 0.008856 ; y(s) = (903.3 * t(s) + 16) / 116 ;
end

function y = lightness (t)
  y = 116 * f(t) - 16 ;
end
