function C48_descriptors ()
  vt_fig() ;
  S = vt_pick(4,4,1,2,3,5) ; O = vt_pick(8,8,4,6,1) ; m = vt_pick(3,3,1,2.5) ; mx = vt_pick(0,0,255,.2) ;
  K = vt_int(1,4) ; D = vt_pick(0,2,3,4,6) ;
  d = rand(S*S*O, K) ; d(rand(size(d)) < .3) = 0 ;
  cls = vt_pick('double','single','uint8') ; if strcmp(cls,'uint8'), d = uint8(d*255) ; else d = cast(d, cls) ; end
  f = randn(D,K) * 10 ; if D > 2, f(3,:) = abs(f(3,:)) + .5 ; end
  if D == 0, f = [] ; end
  args = {} ;
  if S ~= 4 || rand < .3, args = {args{:}, 'NumSpatialBins', S} ; end
  if O ~= 8 || rand < .3, args = {args{:}, 'NumOrientationBins', O} ; end
  if m ~= 3 || rand < .3, args = {args{:}, 'MagnificationFactor', m} ; end
  if mx, args = {args{:}, 'MaxValue', mx} ; end
  vt_desc('vl_plotsiftdescriptor of %d %s descriptors (%dx%dx%d), frames %s, %s', K, cls, S, S, O, mat2str(f,3), strtrim(disp(args))) ;
  if isempty(f) && isempty(args) && rand < .5, h = vl_plotsiftdescriptor(d) ;
  else h = vl_plotsiftdescriptor(d, f, args{:}) ; end
  gx = get(h, 'xdata')(:)' ; gy = get(h, 'ydata')(:)' ;
  got = [] ;
  for i = 1:numel(gx)-1
    if ~any(isnan([gx(i:i+1) gy(i:i+1)])), got(end+1,:) = [gx(i) gy(i) gx(i+1) gy(i+1)] ; end
  end
  want = [] ;
  for k = 1:K
    switch D
      case 0, T = [0;0] ; A = eye(2) ;
      case 2, T = f(:,k) ; A = 10 * eye(2) ;
      case 3, T = f(1:2,k) ; A = f(3,k) * eye(2) ;
      case 4, T = f(1:2,k) ; t = f(4,k) ; A = f(3,k) * [cos(t) -sin(t) ; sin(t) cos(t)] ;
      case 6, T = f(1:2,k) ; A = reshape(f(3:6,k), 2, 2) ;
    end
    v = double(d(:,k)) ;
    if mx, s = .4 / mx ; else s = .4 / max(v + eps) ; end
    w = [] ;
    % stars: descriptors are stored by orientation, then x, then y
    for y = 0:S-1, for x = 0:S-1, for o = 0:O-1
      c = [x;y] + .5 - S/2 ; r = s * v(o + O*(x + S*y) + 1) ; th = 2*pi*o/O ;
      w(:,end+1) = [c ; c + r * [cos(th) ; sin(th)]] ;
    end, end, end
    for i = 0:S, w(:,end+1) = [-S/2 ; i - S/2 ; S/2 ; i - S/2] ; w(:,end+1) = [i - S/2 ; -S/2 ; i - S/2 ; S/2] ; end
    want = [want ; [m * A * w(1:2,:) + T ; m * A * w(3:4,:) + T]'] ;
  end
  tol = 1e-6 * max(1, max(abs(want(:)))) ;
  if rows(got) ~= rows(want), vt_fail('plotsiftdescriptor.count', '%d segments instead of %d', rows(got), rows(want)) ;
  else vt_near('plotsiftdescriptor', order(got, tol), order(want, tol), tol) ; end
  if ~vt_throws(@() vl_plotsiftdescriptor(d(1:end-1,:), f, args{:})), vt_fail('plotsiftdescriptor.error', 'a descriptor of the wrong size is accepted') ; end
  vt_count('descriptors', K) ; vt_seen(d, f, disp(args)) ;
end

% the segments of one descriptor come in the order stars, horizontals,
% verticals; any order is accepted: sorted by a generic projection
function s = order (s, tol)
  p = s * [1 ; pi ; exp(1) ; sqrt(2)] ;
  [~, i] = sort(p) ;
  s = s(i,:) ;
end
