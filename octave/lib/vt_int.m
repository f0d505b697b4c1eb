function r = vt_int (a, b)
  r = a + floor(rand * (b - a + 1)) ;
  if r > b, r = b ; end
end
