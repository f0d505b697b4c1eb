function vt_skip ()
  error('vt:skip', 'skipped') ;
end
