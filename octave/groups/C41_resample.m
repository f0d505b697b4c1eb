function C41_resample ()
  M = vt_int(1,9) ; N = vt_int(1,9) ; K = vt_pick(1,1,3) ;
  cls = vt_pick('double','single','uint8','uint16') ;
  I = rand(M,N,K) ;
  if any(strcmp(cls, {'uint8','uint16'})), I = feval(cls, I * double(intmax(cls))) ; else I = feval(cls, I) ; end
  vt_desc('resampling a %s image %s %s', cls, mat2str([M N K]), mat2str(double(I(:)'),4)) ;
  D = double(I) ; lim = 1 ; eps_ = 1e-6 ;
  if isinteger(I), lim = double(intmax(cls)) ; end
  if M > 1 && N > 1
    J = vl_imup(I) ;
    W = zeros(2*M,2*N,K) ;
    for i = 1:2*M
      for j = 1:2*N
        a = (i+1)/2 ; b = (j+1)/2 ;
        i0 = floor(a) ; i1 = min(M, ceil(a)) ; j0 = floor(b) ; j1 = min(N, ceil(b)) ;
        W(i,j,:) = (D(i0,j0,:) + D(i1,j0,:) + D(i0,j1,:) + D(i1,j1,:)) / 4 ;
      end
    end
    tol = 1e-6 * lim ; if isinteger(J), tol = 1 ; end
    vt_near('imup', J, W, tol) ;
  end
  J = vl_imdown(I) ;
  m = floor(M/2) ; n = floor(N/2) ;
  vt_near('imdown.sample', J, D(2*(1:m)-1, 2*(1:n)-1, :), 0) ;
  J = vl_imdown(I, 'Method', vt_pick('Average','average')) ;
  W = (D(2*(1:m)-1,2*(1:n)-1,:) + D(2*(1:m),2*(1:n)-1,:) + D(2*(1:m)-1,2*(1:n),:) + D(2*(1:m),2*(1:n),:)) / 4 ;
  if isinteger(I), W = double(feval(cls, W)) ; end
  vt_near('imdown.average', J, W, 1e-6) ;
  if ~strcmp(class(J), cls), vt_fail('imdown.class', 'class %s', class(J)) ; end
  if max(D(:)) > min(D(:))
    J = vl_imsc(I) ;
    vt_near('imsc', J, (D - min(D(:))) / (max(D(:)) - min(D(:))), 1e-5) ;
    if max(J(:)) ~= 1 || min(J(:)) ~= 0, vt_fail('imsc.range', 'range [%g,%g]', min(J(:)), max(J(:))) ; end
  end
  vt_count('images_resampled') ; vt_count(['class_' cls]) ;
  if M > 1 && N > 1, vt_seen(I, cls) ; end
end
