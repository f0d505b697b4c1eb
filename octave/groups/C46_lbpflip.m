function C46_lbpflip ()
  c = vt_int(2,6) ; H = c * vt_int(1,4) + vt_int(0,1) ; W = c * vt_int(1,4) ;
  if W < 3 || H < 3, vt_skip() ; end
  I = single(rand(H,W)) ; if rand < .3, I = round(I * 3) ; end
  vt_desc('vl_lbpfliplr %dx%d cell %d', H, W, c) ;
  a = vl_lbp(fliplr(I), c) ; b = vl_lbpfliplr(vl_lbp(I, c)) ;
  vt_near('lbpfliplr', b, a, 1e-4) ;
  vt_near('lbpfliplr.twice', vl_lbpfliplr(vl_lbpfliplr(a)), a, 0) ;
  vt_count('cells', numel(a)/58) ; vt_seen(I, c) ;
end
