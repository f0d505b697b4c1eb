function C48_grids ()
  f = vt_fig() ;
  M = vt_int(1,5) ; N = vt_int(1,5) ;
  x = randn(M,N) ; y = randn(M,N) ;
  held = rand < .5 ; if held, hold on ; else hold off ; end
  extra = vt_pick({}, {'r'}, {'color', [0 0 1]}) ;
  vt_desc('vl_plotgrid of %dx%d vertices, %s', M, N, strtrim(disp(extra))) ;
  h = vl_plotgrid(x, y, extra{:}) ;
  if ishold() ~= held, vt_fail('plotgrid.hold', 'the hold state changed') ; end
  gx = get(h, 'xdata')(:)' ; gy = get(h, 'ydata')(:)' ;
  % segments drawn: exactly the edges of the grid
  got = [] ;
  for i = 1:numel(gx)-1
    if ~any(isnan([gx(i:i+1) gy(i:i+1)])), got(end+1,:) = reshape(sortrows([gx(i:i+1)' gy(i:i+1)'])', 1, 4) ; end
  end
  want = [] ;
  for i = 1:M, for j = 1:N
    if i < M, want(end+1,:) = reshape(sortrows([x(i:i+1,j) y(i:i+1,j)])', 1, 4) ; end
    if j < N, want(end+1,:) = reshape(sortrows([x(i,j:j+1)' y(i,j:j+1)'])', 1, 4) ; end
  end, end
  if isempty(want), want = [] ; end
  if isempty(got) ~= isempty(want), vt_fail('plotgrid', '%d segments instead of %d', rows(got), rows(want)) ; 
  elseif ~isempty(want), vt_near('plotgrid', sortrows(got), sortrows(want), 0) ; end
  if numel(extra) == 1, vt_near('plotgrid.color', get(h, 'color'), [1 0 0], 0) ; end
  if numel(extra) == 2, vt_near('plotgrid.color', get(h, 'color'), [0 0 1], 0) ; end
  % points
  clf(f) ;
  D = vt_int(2,3) ; V = randn(D, vt_int(1,8)) ;
  if rand < .5, h = vl_plotpoint(V) ; mk = '.' ; else h = vl_plotpoint(V, 'ro') ; mk = 'o' ; end
  P = [get(h, 'xdata')(:)' ; get(h, 'ydata')(:)'] ;
  if D == 3, P(3,:) = get(h, 'zdata')(:)' ; end
  vt_near('plotpoint', P, V, 0) ;
  if ~strcmp(get(h, 'marker'), mk), vt_fail('plotpoint.marker', 'marker %s', get(h, 'marker')) ; end
  if ~vt_throws(@() vl_plotpoint(randn(vt_pick(1,4),3))), vt_fail('plotpoint.error', 'points of wrong dimension are accepted') ; end
  vt_count('segments', rows(want)) ; vt_seen(x, y, V) ;
end
