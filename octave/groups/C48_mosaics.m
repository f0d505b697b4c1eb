function C48_mosaics ()
  f = vt_fig() ;
  h = vt_int(1,4) ; w = vt_int(2,4) ; n = vt_int(1,6) ; col = rand < .4 ;
  cls = vt_pick('double','double','single','uint8') ;
  if col, n = max(n,2) ; A = rand(h,w,3,n) ; else A = rand(h,w,n) ; end
  A = A * vt_pick(1, 200) - vt_pick(0, .5, 20) ; A = cast(A, cls) ;
  if rand < .1, A(:) = A(1) ; end
  L = vt_pick(2, 16, 64, 256) ; cm = rand(L,3) ;
  args = {} ; clim = [] ; uni = false ;
  if rand < .6, args = {'CMap', cm} ; else colormap(cm) ; end
  switch vt_int(1,4)
    case 1, clim = sort(rand(1,2)*100) - [10 0] ; args = {args{:}, 'CLim', clim} ;
    case 2, uni = true ; args = {args{:}, 'Uniform', true} ;
  end
  sp = 0 ; if rand < .3, sp = vt_int(1,2) ; args = {args{:}, 'Spacing', sp} ; end
  vt_desc('vl_imarraysc %s %s levels %d clim %s uniform %d', cls, mat2str(size(A)), L, mat2str(clim), uni) ;
  J = vl_imarraysc(A, args{:}) ;
  icls = cls ; if strcmp(cls, 'uint8'), icls = 'single' ; end
  if ~strcmp(class(J), icls), vt_fail('imarraysc.class', 'class %s for %s', class(J), cls) ; end
  B = double(A) ; if uni, clim = [min(B(:)) max(B(:))] ; end
  TN = ceil(sqrt(n)) ; TM = ceil(n/TN) ;
  if ~isequal(size(J)(1:2), [TM*h+(TM-1)*sp TN*w+(TN-1)*sp]), vt_fail('imarraysc.size', 'size %s', mat2str(size(J))) ; return ; end
  for k = 0:n-1
    r = floor(k/TN) ; c = mod(k,TN) ; ir = r*(h+sp) + (1:h) ; ic = c*(w+sp) + (1:w) ;
    if col, t = B(:,:,:,k+1) ; else t = B(:,:,k+1) ; end
    m = clim ; if isempty(m), m = [min(t(:)) max(t(:))] ; end
    u = min(max((t - m(1)) / (m(2) - m(1) + eps), 0), 1) ;
    e = 1e-9 ; if ~strcmp(cls, 'double'), e = 1e-4 ; end
    if m(2) - m(1) < 1e-6, continue ; end
    if col
      vt_near('imarraysc.rgb', J(ir,ic,:), u, e, 'image %d', k+1) ;
    else
      % level k of the map covers the k-th part of the range
      q = double(J(ir,ic)) ;
      if any(q(:) ~= round(q(:)) | q(:) < 1 | q(:) > L), vt_fail('imarraysc.levels', 'levels are not in 1..%d', L) ; end
      bad = u * L < q - 1 - e * L | (u * L > q + e * L) ;
      if any(bad(:)), i = find(bad,1) ; vt_fail('imarraysc', 'image %d: value %g of [%g,%g] has level %d of %d', k+1, t(i), m(1), m(2), q(i), L) ; end
    end
  end
  vt_count('images', n) ;
  % scale spaces: one picture per octave, scaled together when uniform
  if ~col && rand < .3
    clf(f) ;
    no = vt_int(1,3) ; ss = struct('firstOctave', vt_int(-1,1), 'lastOctave', 0) ; ss.data = {} ;
    for o = 1:no, ss.data{o} = randn(8/2^(o-1), 12/2^(o-1), 3) ; end
    uni = rand < .5 ; if uni, vl_plotss(ss, 'Uniform', true) ; else vl_plotss(ss) ; end
    ax = findobj(f, 'type', 'axes') ; im = findobj(f, 'type', 'image') ;
    if numel(im) ~= no, vt_fail('plotss.count', '%d pictures of %d octaves', numel(im), no) ; return ; end
    seen = [] ;
    for i = 1:numel(im)
      J = get(im(i), 'cdata') ; t = get(get(get(im(i), 'parent'), 'title'), 'string') ;
      o = sscanf(t, 'octave %d') - ss.firstOctave + 1 ;
      if isempty(o) || o < 1 || o > no, vt_fail('plotss.title', 'a picture is titled %s', t) ; return ; end
      seen(end+1) = o ;
      lim = {} ; if uni, v = cellfun(@(x) [min(x(:)) max(x(:))], ss.data, 'uniformoutput', false) ; v = vertcat(v{:}) ; lim = {'CLim', [min(v(:,1)) max(v(:,2))]} ; end
      vt_near('plotss', double(J), double(vl_imarraysc(ss.data{o}, lim{:})), 1) ;
    end
    if ~isequal(sort(seen), 1:no), vt_fail('plotss.octaves', 'octaves %s are shown', mat2str(seen)) ; end
    vt_count('octaves', no) ;
  end
  vt_seen(A, disp(args)) ;
end
