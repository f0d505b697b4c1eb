function C48_layout ()
  f = vt_fig() ;
  % axes tile the figure
  K = vt_int(1,12) ;
  two = rand < .5 ;
  if two, M = vt_int(1,4) ; N = vt_int(1,4) ; K = M*N ; else N = ceil(sqrt(K)) ; M = ceil(K/N) ; end
  mg = zeros(1,4) ; args = {} ; names = {'MarginLeft','MarginRight','MarginTop','MarginBottom'} ; cap = .4 / max(M,N) ;
  switch vt_int(1,4)
    case 1
    case 2, mg(:) = rand * cap ; args = {'Margin', mg(1)} ;
    case 3, for i = 1:4, if rand < .6, mg(i) = rand * cap ; args = {args{:}, names{i}, mg(i)} ; end, end
    case 4, mg(:) = rand * cap ; args = {'Spacing', 2*mg(1)} ;
  end
  outer = rand < .2 ; if outer, args = {args{:}, 'Box', 'outer'} ; prop = 'outerposition' ; else prop = 'position' ; end
  vt_desc('vl_tightsubplot %dx%d, %s', M, N, strtrim(disp(args))) ;
  H = [] ; R = zeros(4, 0) ;
  for p = 1:K
    if two, h = vl_tightsubplot(M, N, p, args{:}) ; else h = vl_tightsubplot(K, p, args{:}) ; end
    if numel(h) ~= 1 || gca() ~= h, vt_fail('tightsubplot.current', 'the axes %d are not the current ones', p) ; return ; end
    H(p) = h ;
    r = floor((p-1)/N) ; c = mod(p-1, N) ;
    want = [c/N + mg(1), 1 - (r+1)/M + mg(4), 1/N - mg(1) - mg(2), 1/M - mg(3) - mg(4)] ;
    vt_near('tightsubplot', get(h, prop), want, 1e-9, 'axes %d', p) ;
  end
  if numel(unique(H)) ~= K, vt_fail('tightsubplot.distinct', '%d axes for %d places', numel(unique(H)), K) ; end
  for p = 1:K
    if two, h = vl_tightsubplot(M, N, p, args{:}) ; else h = vl_tightsubplot(K, p, args{:}) ; end
    if h ~= H(p), vt_fail('tightsubplot.again', 'asking for axes %d again makes new ones', p) ; end
  end
  % styles: colours first, then line styles
  clf(f) ;
  nc = vt_int(1,5) ; C = rand(nc,3) ; L = {'-','--',':','-.'} ; L = L(randperm(4)(1:vt_int(1,4))) ;
  set(gca(), 'colororder', C, 'linestyleorder', vt_pick(L, strjoin(L, '|'))) ;
  order = get(gca(), 'linestyleorder') ; if ~iscell(order), order = L ; end
  idx = vt_int(1,40) ; if rand < .5, idx = reshape(arrayfun(@(i) vt_int(1,40), 1:4), 2, 2) ; end
  s = vl_plotstyle(idx) ;
  if isscalar(idx), s = {s} ; end
  for i = 1:numel(idx)
    w = {'Color', C(mod(idx(i)-1,nc)+1,:), 'LineStyle', L{mod(floor((idx(i)-1)/nc), numel(L)) + 1}} ;
    if ~isequal(s{i}, w), vt_fail('plotstyle', 'style %d is %s instead of %s', idx(i), disp(s{i}), disp(w)) ; end
  end
  % aspect and size
  g = figure('visible', 'off') ;
  unwind_protect
    a = vt_pick(.5, 1, 2, rand*3+.1) ;
    set(g, 'position', [10 20 vt_int(100,500) vt_int(100,500)], 'paperunits', 'inches', 'paperposition', [1 1 1+rand*5 1+rand*5]) ;
    p0 = get(g, 'position') ; q0 = get(g, 'paperposition') ;
    vl_figaspect(a) ;
    p1 = get(g, 'position') ; q1 = get(g, 'paperposition') ;
    vt_near('figaspect', [p1(3)/p1(4) q1(3)/q1(4)], [a a], 1e-2 * a) ;
    if a >= 1, k = 4 ; else k = 3 ; end
    vt_near('figaspect.short', [p1(k) q1(k)], [p0(k) q0(k)], 1e-9) ;
    R = .1 + rand ; args = {} ; ref = 'horizontal' ; mar = 0 ; type = 'usletter' ; asp = q1(3)/q1(4) ;
    if rand < .5, ref = vt_pick('horizontal','vertical','Vertical') ; args = {args{:}, 'Reference', ref} ; end
    if rand < .4, mar = rand*.3 ; args = {args{:}, 'Margin', mar} ; end
    if rand < .4, type = vt_pick('a4','A3','usletter','uslegal') ; args = {args{:}, 'PaperType', type} ; end
    if rand < .4, asp = .3 + rand*2 ; args = {args{:}, 'AspectRatio', asp} ; end
    switch lower(type)
      case 'usletter', page = [8.5 11] ;
      case 'uslegal',  page = [8.5 14] ;
      case 'a4',       page = [8.268 11.693] ;
      case 'a3',       page = [11.693 16.535] ;
    end
    if rand < .5, vl_printsize(R, args{:}) ; else set(0, 'CurrentFigure', f) ; vl_printsize(g, R, args{:}) ; end
    pp = get(g, 'paperposition') ; ps = get(g, 'papersize') ;
    if strcmpi(ref, 'horizontal'), w = R*page(1) * [1 1/asp] ; b = mar*w(1) ; else w = R*page(2) * [asp 1] ; b = mar*w(2) ; end
    vt_near('printsize', pp, [b b w], 1e-3 * max(w), 'options %s', strtrim(disp(args))) ;
    vt_near('printsize.page', ps, w + 2*b, 1e-3 * max(w), 'options %s', strtrim(disp(args))) ;
  unwind_protect_cleanup
    close(g) ;
  end_unwind_protect
  vt_count('axes', K) ; vt_seen(M, N, K, mg, a, R, mar, C, idx) ;
end
