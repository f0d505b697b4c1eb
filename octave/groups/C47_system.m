function C47_system ()
  % directories, inside a scratch directory only
  base = tempname() ; mkdir(base) ;
  unwind_protect
    k = vt_int(1,4) ; p = base ; parts = {} ;
    for i = 1:k, parts{i} = vt_pick('a','b.c','d e','e') ; p = [p '/' parts{i}] ; end
    if rand < .3, mkdir(fullfile(base, parts{1})) ; end
    pretend = rand < .3 ; slash = vt_pick('', '/') ;
    vt_desc('vl_xmkdir BASE/%s pretend %d', strjoin(parts, '/'), pretend) ;
    had = exist(p, 'dir') == 7 ;
    evalc('vl_xmkdir([p slash], ''Pretend'', pretend)') ;
    now = exist(p, 'dir') == 7 ;
    if pretend
      if now ~= had, vt_fail('xmkdir.pretend', 'a directory was created') ; end
    else
      if ~now, vt_fail('xmkdir', 'the directory was not created') ; end
      vl_xmkdir(p) ;
    end
    vt_count('directories', k) ;
  unwind_protect_cleanup
    confirm_recursive_rmdir(false, 'local') ;
    if strncmp(base, tempdir(), numel(tempdir())) && numel(base) > numel(tempdir()) + 3, rmdir(base, 's') ; end
  end_unwind_protect
  % data sets for the solvers
  X = randn(3,4) ; if rand < .5, X = single(X) ; end
  d = vl_svmdataset(X) ;
  if ~isequal(d, struct('data', X)), vt_fail('svmdataset', 'got %s', disp(d)) ; end
  h = struct('kernel', 'KChi2', 'order', 2) ;
  d = vl_svmdataset(X, 'homkermap', h) ;
  if ~isequal(d.homkermap, h) || ~isequal(d.data, X), vt_fail('svmdataset.homkermap', 'got %s', disp(d)) ; end
  if ~vt_throws(@() vl_svmdataset(int32(X))) || ~vt_throws(@() vl_svmdataset(sparse(double(X)))) || ...
     ~vt_throws(@() vl_svmdataset(X, 'homkermap', struct('bad', 1))) || ~vt_throws(@() vl_svmdataset(X, 'homkermap', 3)) || ~vt_throws(@() vl_svmdataset(rand(2,2,2)))
    vt_fail('svmdataset.error', 'an invalid data set is accepted') ;
  end
  % patterns of noise leave the random number generator alone
  s0 = vl_twister('state') ;
  sd = vt_int(1,1000) ; n = vt_int(2,9) ;
  a = vl_impattern('uniformNoise', 'size', [n n], 'seed', sd) ; b = vl_impattern('uniformNoise', 'size', [n n], 'seed', sd) ;
  if ~isequal(a, b) || ~isequal(size(a), [n n]) || any(a(:) < 0 | a(:) >= 1), vt_fail('impattern.noise', 'not reproducible noise in [0,1)') ; end
  if ~isequal(vl_twister('state'), s0), vt_fail('impattern.state', 'the state of the generator changed') ; end
  c = vt_pick('wedge','cone','smoothChecker','threeDotsSquare','blob','blobs','blobs1') ;
  a = double(vl_impattern(c, 'size', [n+10 n+10])) ;
  if ~isequal(size(a), [n+10 n+10]) || any(a(:) < -1e-9 | a(:) > 1 + 1e-9 | isnan(a(:))), vt_fail('impattern', '%s of size %s, range [%g,%g]', c, mat2str(size(a)), min(a(:)), max(a(:))) ; end
  vt_seen(strjoin(parts,'/'), pretend, sd, c) ;
end
