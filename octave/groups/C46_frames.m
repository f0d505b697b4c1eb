function C46_frames ()
  K = vt_int(0,5) ; D = vt_int(2,6) ;
  f = randn(D,K) * 5 ;
  if D == 3 || D == 4, f(3,:) = abs(f(3,:)) + .1 ; end
  if D == 5
    for k = 1:K, A = randn(2) ; S = A*A' + .01*eye(2) ; f(3:5,k) = [S(1,1);S(1,2);S(2,2)] ; end
  end
  vt_desc('vl_frame2oell(%s)', mat2str(f,4)) ;
  e = vl_frame2oell(f) ;
  if ~isequal(size(e), [6 K]), vt_fail('frame2oell.size', 'size %s', mat2str(size(e))) ; return ; end
  vt_near('frame2oell.centre', e(1:2,:), f(1:2,:), 0) ;
  for k = 1:K
    A = reshape(e(3:6,k), 2, 2) ;
    switch D
      case 2, w = zeros(2) ;
      case 3, w = f(3,k) * eye(2) ;
      case 4, t = f(4,k) ; w = f(3,k) * [cos(t) -sin(t) ; sin(t) cos(t)] ;
      case 6, w = reshape(f(3:6,k), 2, 2) ;
      case 5
        S = [f(3,k) f(4,k) ; f(4,k) f(5,k)] ;
        vt_near('frame2oell.ellipse', A*A', S, 1e-9 * max(1, norm(S))) ;
        if A(1,2) ~= 0 || A(2,2) < 0, vt_fail('frame2oell.upright', 'the Y axis is rotated: %s', mat2str(A)) ; end
        continue ;
    end
    vt_near('frame2oell', A, w, 1e-9) ;
  end
  % frames of extremal regions, rows and columns exchanged
  if D == 5 && K
    t = vl_ertr(f) ;
    vt_near('ertr', t, f([2 1 5 4 3],:), 0) ;
    vt_near('ertr.twice', vl_ertr(t), f, 0) ;
  elseif ~vt_throws(@() vl_ertr(f)) && D ~= 5
    vt_fail('ertr.error', 'frames of %d rows are accepted', D) ;
  end
  % key point files of the UBC and Oxford formats
  n = vt_int(0,4) ; L = 128 ;
  desc = floor(rand(L,n) * 256) ;
  name = [tempname() '.key'] ;
  fid = fopen(name, 'w') ;
  if rand < .5
    P = round(rand(4,n)*1000)/8 ;
    fprintf(fid, '%d %d\n', n, L) ;
    for k = 1:n, fprintf(fid, '%.10g %.10g %.10g %.10g\n', P(:,k)) ; fprintf(fid, ' %d', desc(:,k)) ; fprintf(fid, '\n') ; end
    fclose(fid) ;
    [g,d] = vl_ubcread(name) ;
    vt_near('ubcread.frames', g, [P(2,:)+1 ; P(1,:)+1 ; P(3,:) ; -P(4,:)], 1e-9) ;
    % angles change sign: bin o of each spatial cell becomes bin -o
    w = desc ;
    for c = 0:15, for o = 0:7, w(8*c + mod(8-o,8) + 1, :) = desc(8*c + o + 1, :) ; end, end
    vt_near('ubcread.descriptors', d, w, 0) ;
  else
    P = zeros(5,n) ;
    for k = 1:n, A = randn(2) ; S = A*A' + .1*eye(2) ; P(:,k) = [rand(2,1)*100 ; S(1,1) ; S(1,2) ; S(2,2)] ; end
    fprintf(fid, '%d\n%d\n', L, n) ;
    for k = 1:n, fprintf(fid, '%.12g %.12g %.12g %.12g %.12g', P(:,k)) ; fprintf(fid, ' %d', desc(:,k)) ; fprintf(fid, '\n') ; end
    fclose(fid) ;
    [g,d] = vl_ubcread(name, 'format', 'oxford') ;
    w = P ; w(1:2,:) = P(1:2,:) + 1 ;
    for k = 1:n, S = inv([P(3,k) P(4,k) ; P(4,k) P(5,k)]) ; w(3:5,k) = [S(1,1) ; S(1,2) ; S(2,2)] ; end
    vt_near('ubcread.oxford', g, w, 1e-6 * max(1, max(abs(w(:))))) ;
    vt_near('ubcread.oxford.descriptors', d, desc, 0) ;
  end
  if n
    t = fileread(name) ; fid = fopen(name, 'w') ; fputs(fid, t(1:floor(numel(t) * rand * .9))) ; fclose(fid) ;
    open = fopen('all') ;
    if ~vt_throws(@() vl_ubcread(name)), vt_fail('ubcread.truncated', 'a truncated file is accepted') ; end
    for h = setdiff(fopen('all'), open)', fclose(h) ; end
  end
  unlink(name) ;
  vt_count('frames', K) ; vt_count('key_points_read', n) ; if K, vt_seen(f) ; end
end
