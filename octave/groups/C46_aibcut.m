function C46_aibcut ()
  L = vt_int(2, 12) ;
  if rand < .5                                    % a random merge tree with null leaves
    null = rand(1,L) < vt_pick(0,0,.3) ;
    if sum(~null) < 2, null(1:2) = false ; end
    alive = find(~null) ; parents = zeros(1, 2*L-1) ; next = L ;
    while numel(alive) > 1
      p = randperm(numel(alive)) ; next = next + 1 ;
      parents(alive(p(1:2))) = next ; alive(p(1:2)) = [] ; alive(end+1) = next ;
    end
    parents(next) = 1 ;                          % as vl_aib marks the root
  else                                            % a tree that vl_aib built
    P = rand(vt_int(2,4), L) ; P(:, rand(1,L) < vt_pick(0,.3)) = 0 ;
    if sum(any(P)) < 2, vt_skip() ; end
    parents = double(vl_aib(P / sum(P(:)))) ;
    null = ~any(P) ;
    if any((parents(1:L) == 0) ~= null), vt_fail('aib.null', 'leaves without mass are not the null nodes: %s', mat2str(parents)) ; return ; end
  end
  z = sum(null) ; root = max(parents) ;
  n = vt_int(1, L) ;
  vt_desc('vl_aibcut(%s, %d)', mat2str(parents), n) ;
  [cut, map, short] = vl_aibcut(parents, n) ;
  if numel(cut) ~= n || numel(unique(cut)) ~= n
    vt_fail('aibcut.size', 'cut %s', mat2str(cut)) ; return ;
  end
  up = zeros(numel(parents)) ;                    % up(i,j): j is i or an ancestor
  for i = 1:numel(parents)
    j = i ; up(i,j) = 1 ;
    while parents(j) > j, j = parents(j) ; up(i,j) = 1 ; end
  end
  for i = cut
    if i > root, vt_fail('aibcut.node', 'node %d of the cut does not exist', i) ; return ; end
    for j = cut
      if i ~= j && up(i,j), vt_fail('aibcut.descendant', '%d descends from %d in the cut', i, j) ; end
    end
  end
  want = zeros(1, numel(parents)) ;
  for i = 1:numel(parents)
    k = find(up(i,cut)) ;
    if numel(k) == 1, want(i) = k ; end
  end
  for i = 1:L
    if ~null(i) && ~want(i), vt_fail('aibcut.leaf', 'leaf %d does not descend from the cut %s', i, mat2str(cut)) ; end
  end
  nulls = sum(parents(cut) == 0) ;
  if nulls > max(0, n - (L - z)), vt_fail('aibcut.nulls', '%d null nodes in a cut of %d of %d leaves', nulls, n, L-z) ; end
  vt_near('aibcut.map', map(:)', want, 0) ;
  for i = 1:root
    if want(i) && ~any(cut == i)
      if short(i) ~= cut(want(i)), vt_fail('aibcut.short', 'node %d links to %d, its cut node is %d', i, short(i), cut(want(i))) ; end
    elseif any(cut == i)
      if short(i) ~= i, vt_fail('aibcut.self', 'cut node %d links to %d', i, short(i)) ; end
    elseif parents(i) == 0
      if short(i) ~= 0, vt_fail('aibcut.nullink', 'null node %d links to %d', i, short(i)) ; end
    end
  end
  % the clusters of n elements are those before the last merges
  v = cut(parents(cut) > 0) ;
  if numel(v) > 1
    above = setdiff(L+1:root, v) ; above = above(want(above) == 0) ;
    if ~isempty(above) && max(v) > min(above), vt_fail('aibcut.order', 'node %d of the cut was made after %d above it', max(v), min(above)) ; end
  end
  x = vt_int(1,L) ; x = 1 + floor(rand(1, vt_int(1,20)) * L) ;
  y = vl_aibcutpush(map, x) ;
  vt_near('aibcutpush', y(:)', want(x), 0) ;
  for mode = {'', 'drop', 'append', 'first'}
    if isempty(mode{1}), h = vl_aibcuthist(map, x) ; else h = vl_aibcuthist(map, x, 'Nulls', mode{1}) ; end
    w = zeros(1, max(want)) ; ex = 0 ;
    for i = x
      if want(i), w(want(i)) = w(want(i)) + 1 ; else ex = ex + 1 ; end
    end
    if strcmp(mode{1}, 'append') && ex, w(end+1) = ex ; end
    if strcmp(mode{1}, 'first'), w(1) = w(1) + ex ; end
    vt_near(['aibcuthist.' mode{1}], h(:)', w, 0) ;
  end
  vt_count('cuts') ; if z, vt_count('with_null_leaves') ; end
  vt_seen(parents, n) ;
end
