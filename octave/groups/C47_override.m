function C47_override ()
  a = randstruct(3) ; b = randstruct(3) ;
  flags = {} ; if rand < .4, flags{end+1} = vt_pick('Skip','skip') ; end
  if rand < .4, flags{end+1} = 'CaseI' ; end
  if rand < .2, flags{end+1} = 'Err' ; end
  if rand < .2, flags{end+1} = 'Warn' ; end
  vt_desc('vl_override(%s, %s, %s)', strtrim(disp(a)), strtrim(disp(b)), disp(flags)) ;
  l = lower(flags) ;
  bad = false ;
  try
    w = over(a, b, any(strcmp(l,'skip')), any(strcmp(l,'casei')), any(strcmp(l,'err'))) ;
  catch
    bad = true ;
  end
  try
    g = vl_override(a, b, flags{:}) ;
  catch e
    if ~bad, vt_fail('override.error', '%s', e.message) ; end
    vt_count('errors') ; return ;
  end
  if bad, vt_fail('override.accepted', 'an unknown field is accepted') ; return ; end
  if ~isequal(g, w), vt_fail('override', 'got %s instead of %s', disp(g), disp(w)) ; end
  vt_count('fields', numel(fieldnames(b))) ; vt_seen(disp(a), disp(b), disp(flags)) ;
end

function s = randstruct (depth)
  s = struct() ;
  for n = {'a','b','Alpha','c','d'}
    if rand < .5
      k = n{1} ; if rand < .2, k = upper(k) ; end
      if depth > 1 && rand < .5, s.(k) = randstruct(depth-1) ; else s.(k) = round(rand*100) ; end
    end
  end
end

function a = over (a, b, skip, casei, err)
  if ~isstruct(a) || ~isstruct(b), a = b ; return ; end
  for n = fieldnames(b)'
    f = fieldnames(a) ;
    if casei, i = find(strcmpi(f, n{1})) ; else i = find(strcmp(f, n{1})) ; end
    if ~isempty(i)
      if numel(i) > 1, error('vt:skip','ambiguous') ; end
      a.(f{i}) = over(a.(f{i}), b.(n{1}), skip, casei, err) ;
    elseif err, error('unknown field') ;
    elseif ~skip, a.(n{1}) = b.(n{1}) ; end
  end
end
