function C41_mosaic ()
  h = vt_int(1,4) ; w = vt_int(2,4) ; n = vt_int(1,8) ;
  kind = vt_int(1,4) ;
  cls = vt_pick('double','single','uint8') ;
  switch kind
    case 1, A = rand(h,w,n) ; C = 1 ;
    case 2, A = rand(h,w,3,n) ; C = 3 ; if n == 1, C = 1 ; n = 3 ; end
    case 3, if n == 3 || n == 1, n = 4 ; end
            A = rand(h,w,n,3) ; C = 3 ;
    case 4, n = max(n,2) ; A = rand(h,w,1,n) ; C = 1 ;
  end
  A = A * 200 ; A = feval(cls, A) ;
  args = {} ; sp = 0 ; fv = 0 ; rev = false ; lay = [] ;
  if rand < .5, sp = vt_int(0,3) ; args = [args {'Spacing', sp}] ; end
  if rand < .5, fv = vt_int(1,9) ; if C == 3 && rand < .5, fv = [1 5 9] ; end ; args = [args {'FillValue', fv}] ; end
  if rand < .4, rev = rand < .5 ; args = [args {'Reverse', rev}] ; end
  if rand < .4, lay = [vt_int(1,4) vt_int(1,4)] ; args = [args {'Layout', lay}] ; end
  vt_desc('vl_imarray %s %s options %s', cls, mat2str(size(A)), disp(args)) ;
  J = vl_imarray(A, args{:}) ;
  if isempty(lay)
    TN = ceil(sqrt(n)) ; TM = ceil(n / TN) ;
  else
    TM = lay(1) ; TN = lay(2) ; n = min(n, TM*TN) ;
  end
  W = zeros(TM*h + (TM-1)*sp, TN*w + (TN-1)*sp, C) ;
  for c = 1:C, W(:,:,c) = fv(min(c, numel(fv))) ; end
  for k = 0:n-1
    r = floor(k / TN) ; c = mod(k, TN) ; if rev, r = TM - 1 - r ; end
    for ch = 1:C
      switch kind
        case 1, t = A(:,:,k+1) ;
        case 2, if ndims(A) == 3, t = A(:,:,k+1) ; else t = A(:,:,ch,k+1) ; end
        case 3, t = A(:,:,k+1,ch) ;
        case 4, t = A(:,:,1,k+1) ;
      end
      W(r*(h+sp) + (1:h), c*(w+sp) + (1:w), ch) = t ;
    end
  end
  vt_near('imarray', J, W, 1e-9) ;
  if ~strcmp(class(J), cls), vt_fail('imarray.class', 'class %s of a mosaic of %s', class(J), cls) ; end
  vt_count('tiles', n) ; vt_seen(size(A), disp(args), cls) ;
end
