function C48_frames ()
  vt_fig() ;
  K = vt_int(1,6) ; D = vt_int(2,6) ;
  f = randn(D,K) * 5 ;
  if D == 3 || D == 4, f(3,:) = abs(f(3,:)) + .1 ; end
  if D == 5
    for k = 1:K, A = randn(2) ; S = A*A' + .01*eye(2) ; f(3:5,k) = [S(1,1);S(1,2);S(2,2)] ; end
  end
  if D == 2 && K == 1 && rand < .5, f = f' ; end
  if K == 1 && rand < .5, f = f(:)' ; end
  extra = vt_pick({}, {}, {'r'}, {'r--'}, {'color', [.5 0 1]}, {'b', 'linewidth', 2}) ;
  vt_desc('vl_plotframe(%s, %s)', mat2str(f,4), strtrim(disp(extra))) ;
  hold on ;
  h = vl_plotframe(f, extra{:}) ;
  if min(size(f)) == 1, f = f(:) ; end
  x = get(h, 'xdata') ; y = get(h, 'ydata') ;
  switch numel(extra)
    case 1, c = [1 0 0] ;
    case 2
      if ischar(extra{2}), c = [0 0 1] ; else c = extra{2} ; end
    case 3, c = [0 0 1] ;
    otherwise, c = [0 1 0] ;
  end
  if numel(extra) || D > 2
    vt_near('plotframe.color', get(h, 'color'), c, 1e-12) ;
  end
  if numel(extra) == 1 && numel(extra{1}) == 3 && ~strcmp(get(h, 'linestyle'), '--'), vt_fail('plotframe.style', 'line style %s', get(h, 'linestyle')) ; end
  if numel(extra) == 3, vt_near('plotframe.width', get(h, 'linewidth'), 2, 0) ; end
  if D == 2
    vt_near('plotframe.points', [x(:)' ; y(:)'], f, 0) ;
  else
    P = pieces(x, y) ;
    arrows = D == 4 || D == 6 ;
    if numel(P) ~= K * (1 + arrows), vt_fail('plotframe.count', '%d pieces for %d frames', numel(P), K) ; return ; end
    for k = 1:K
      B = P{k} ;
      switch D
        case 3, A = f(3,k) * eye(2) ;
        case 4, t = f(4,k) ; A = f(3,k) * [cos(t) -sin(t) ; sin(t) cos(t)] ;
        case 5, A = chol([f(3,k) f(4,k) ; f(4,k) f(5,k)])' ;
        case 6, A = reshape(f(3:6,k), 2, 2) ;
      end
      % a closed polygon of the ellipse, once around
      if cond(A) < 1e4
        q = A \ (B - f(1:2,k)) ;
        vt_near('plotframe.ellipse', sum(q.^2, 1), ones(1, size(q,2)), 1e-6) ;
        vt_near('plotframe.closed', B(:,1), B(:,end), 1e-9 * max(1, norm(A))) ;
        w = atan2(q(2,:), q(1,:)) ; w = mod(diff(w) + pi, 2*pi) - pi ;
        if abs(abs(sum(w)) - 2*pi) > 1e-3 || max(abs(w)) > pi/6, vt_fail('plotframe.around', 'the outline turns by %g in steps up to %g', sum(w), max(abs(w))) ; end
      end
      if arrows
        vt_near('plotframe.arrow', P{K+k}, [f(1:2,k), f(1:2,k) + A(:,2)], 1e-9 * max(1, max(abs(f(:)))) ) ;
      end
    end
  end
  vt_count('frames', K) ; vt_seen(f, disp(extra)) ;
end

function P = pieces (x, y)
  P = {} ; x = x(:)' ; y = y(:)' ;
  g = [0 find(isnan(x)) numel(x)+1] ;
  for i = 1:numel(g)-1
    if g(i+1) - g(i) > 1, P{end+1} = [x(g(i)+1:g(i+1)-1) ; y(g(i)+1:g(i+1)-1)] ; end
  end
end
