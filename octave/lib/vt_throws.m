function t = vt_throws (fn)
% whether calling fn raises an error
  t = false ;
  try
    fn() ;
  catch
    t = true ;
  end
end
