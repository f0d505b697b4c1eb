function C46_segments ()
  M = vt_int(1,7) ; N = vt_int(1,7) ; n = M*N ;
  map = zeros(M,N) ; p = randperm(n) ;            % a forest: parents precede in the order p
  q = vt_pick(.1, .3, 1) ;
  for i = 1:n
    if i == 1 || rand < q, map(p(i)) = p(i) ; else map(p(i)) = p(vt_int(1,i-1)) ; end
  end
  vt_desc('vl_flatmap(%s)', mat2str(map)) ;
  root = zeros(M,N) ;
  for i = 1:n, j = i ; while map(j) ~= j, j = map(j) ; end ; root(i) = j ; end
  [labels, C] = vl_flatmap(map) ;
  vt_near('flatmap', labels, root, 0) ;
  C = C(:) ;
  nc = numel(unique(root)) ;
  if numel(C) ~= n, vt_fail('flatmap.size', '%d cluster labels for %d nodes', numel(C), n) ; return ; end
  if ~isequal(unique(C)', 1:nc), vt_fail('flatmap.range', 'cluster labels %s for %d clusters', mat2str(unique(C)'), nc) ; return ; end
  for i = 1:n
    if any((C == C(i)) ~= (root(:) == root(i))), vt_fail('flatmap.clusters', 'node %d is not grouped with its tree', i) ; break ; end
  end
  K = vt_pick(1,3) ; I = rand(M,N,K) ;
  lab = reshape(C, M, N) ;
  Q = vl_imseg(I, lab) ;
  W = zeros(M,N,K) ;
  for k = 1:K
    J = I(:,:,k) ; R = zeros(M,N) ;
    for c = 1:nc, R(lab == c) = mean(J(lab == c)) ; end
    W(:,:,k) = R ;
  end
  vt_near('imseg', Q, W, 1e-9) ;
  if M > 2 && N > 2
    [Iseg, labels, map, gaps, E] = vl_quickseg(I, vt_pick(.2,.5,1), vt_pick(1,2), vt_pick(2,4,8)) ;
    r = zeros(M,N) ;
    for i = 1:n, j = i ; s = 0 ; while map(j) ~= j && s <= n, j = map(j) ; s = s + 1 ; end ; r(i) = j ; end
    for i = 1:n
      if any((labels(:) == labels(i)) ~= (r(:) == r(i))), vt_fail('quickseg.labels', 'pixel %d is not labelled as its tree', i) ; break ; end
    end
    for c = unique(labels(:))'
      for k = 1:K
        a = Iseg(:,:,k) ; b = I(:,:,k) ;
        if max(abs(a(labels == c) - mean(b(labels == c)))) > 1/2500, vt_fail('quickseg.mean', 'segment %d is not its mean colour', c) ; end
      end
    end
    for i = 1:n                                   % links climb the density
      if map(i) ~= i && E(map(i)) < E(i), vt_fail('quickseg.climb', 'pixel %d links to a lower density', i) ; break ; end
    end
    vt_count('quick_segmentations') ;
  end
  vt_count('nodes', n) ; if n > 1, vt_seen(map) ; end
end
