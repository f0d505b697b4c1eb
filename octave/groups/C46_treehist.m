function C46_treehist ()
  K = vt_int(2,4) ; D = vt_int(1,3) ; N = vt_int(1,30) ;
  real = rand < .4 ;
  if real
    data = uint8(rand(vt_int(1,4), 60) * 255) ;
    [tree, asgn] = vl_hikmeans(data, K, K^D) ;
    K = double(tree.K) ; D = double(tree.depth) ;
    q = uint8(rand(size(data,1), N) * 255) ;
    path = vl_hikmeanspush(tree, q) ;
    % the path follows the nearest centre at every level
    for i = 1:N
      node = tree ;
      for d = 1:D
        c = double(node.centers) ; dist = sum((c - double(q(:,i))).^2, 1) ;
        k = double(path(d,i)) ;
        if k < 1 || k > size(c,2) || dist(k) > min(dist)
          vt_fail('hikmeanspush', 'level %d of path %s is not the nearest of the distances %s', d, mat2str(path(:,i)'), mat2str(dist)) ; break ;
        end
        if isempty(node.sub), break ; end
        node = node.sub(k) ;
      end
    end
  else
    tree = struct('K', K, 'depth', D) ;
    path = 1 + floor(rand(D,N) * K) ;
    if rand < .5, path = uint32(path) ; end
  end
  vt_desc('vl_hikmeanshist K=%d depth=%d path=%s', K, D, mat2str(double(path))) ;
  h = vl_hikmeanshist(tree, path) ;
  % breadth first: the root, its K children, their K^2 children, ...
  w = N ;
  for d = 1:D
    c = zeros(1, K^d) ;
    for i = 1:N
      k = 0 ; for e = 1:d, k = k*K + double(path(e,i)) - 1 ; end
      c(k+1) = c(k+1) + 1 ;
    end
    w = [w c] ;
  end
  vt_near('hikmeanshist', h, w(:), 0) ;
  M = vt_int(1,8) ; a = 1 + floor(rand(1,N) * M) ;
  if rand < .5, a = uint32(a) ; end
  h = vl_ikmeanshist(M, a) ;
  w = zeros(M,1) ; for i = 1:N, w(a(i)) = w(a(i)) + 1 ; end
  vt_near('ikmeanshist', h, w, 0) ;
  vt_count('paths', N) ; vt_seen(K, D, double(path)) ;
end
