function C41_gradient ()
  M = vt_int(2,8) ; N = vt_int(2,8) ;
  I = randn(M,N) ; if rand < .2, I = single(I) ; end
  type = vt_pick('', 'central', 'forward', 'backward') ;
  fn = vt_pick(@vl_grad, @vl_imgrad) ;
  vt_desc('%s %s %dx%d', func2str(fn), type, M, N) ;
  if isempty(type), [gx,gy] = fn(I) ; type = 'central' ;
  else [gx,gy] = fn(I, 'Type', type) ; end
  wx = zeros(M,N) ; wy = wx ;
  for i = 1:M
    for j = 1:N
      wx(i,j) = diff1(double(I(i,:)), j, type) ; wy(i,j) = diff1(double(I(:,j)), i, type) ;
    end
  end
  vt_near('grad.x', gx, wx, 1e-6) ; vt_near('grad.y', gy, wy, 1e-6) ;
  vt_count('gradients', M*N) ; vt_seen(I, type, func2str(fn)) ;
end

function d = diff1 (v, k, type)
  n = numel(v) ;
  switch type
    case 'central', a = max(1,k-1) ; b = min(n,k+1) ;
    case 'forward', a = min(k,n-1) ; b = a + 1 ;
    case 'backward', b = max(k,2) ; a = b - 1 ;
  end
  d = (v(b) - v(a)) / (b - a) ;
end
