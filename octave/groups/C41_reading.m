function C41_reading ()
  % images are written into a scratch file and read back as grey levels
  M = vt_int(1,9) ; N = vt_int(2,9) ; C = vt_pick(1,1,3) ; deep = rand < .3 ;
  if deep, A = uint16(floor(rand(M,N,C) * 65536)) ; top = 65535 ; else A = uint8(floor(rand(M,N,C) * 256)) ; top = 255 ; end
  ext = vt_pick('png', 'png', 'tif') ;
  vt_desc('reading a %s of %s %s', ext, class(A), mat2str(size(A))) ;
  name = [tempname() '.' ext] ;
  unwind_protect
    imwrite(A, name) ;
    if rand < .5, J = vl_imreadgray(name) ; else J = vl_imreadbw(name) ; end
  unwind_protect_cleanup
    if exist(name, 'file'), unlink(name) ; end
  end_unwind_protect
  W = double(A) / top ;
  if C == 3, W = .298936 * W(:,:,1) + .587043 * W(:,:,2) + .114021 * W(:,:,3) ; end
  if ~isa(J, 'double'), vt_fail('imreadgray.class', 'class %s', class(J)) ; end
  vt_near('imreadgray', J, W, 1e-4) ;
  vt_count('pixels', M*N) ; vt_seen(A, ext) ;
end
