function C48_boxes ()
  vt_fig() ;
  N = vt_int(0,5) ;
  b = round(randn(4,N) * 20) / 2 ;
  if rand < .3, b = single(b) ; end
  label = vt_int(0,2) ;
  args = vt_pick({}, {'r'}, {'g:'}, {'linewidth', 3}) ;
  texts = {'one','two','three','four','five'} ;
  switch label
    case 1, args = {args{:}, 'Label', 'text'} ; want = repmat({'text'}, 1, N) ;
    case 2, L = texts(1:vt_int(1,5)) ; args = {args{:}, 'label', L} ; want = L(mod((1:N)-1, numel(L)) + 1) ;
  end
  vt_desc('vl_plotbox(%s, %s)', mat2str(b), strtrim(disp(args))) ;
  h = vl_plotbox(b, args{:}) ;
  if N == 0
    if ~isempty(h), vt_fail('plotbox.empty', 'handles for no box') ; end
    return ;
  end
  if ~isequal(size(h), [1 + (label > 0), N]), vt_fail('plotbox.handles', '%s handles', mat2str(size(h))) ; return ; end
  for k = 1:N
    p = double(b(:,k)) ;
    V = double([get(h(1,k), 'xdata')(:) get(h(1,k), 'ydata')(:)]') ;
    % the four sides, each once
    if size(V,2) ~= 5 || any(V(:,1) ~= V(:,5))
      vt_fail('plotbox.shape', 'vertices %s', mat2str(V)) ;
    else
      E = sortrows(sort_edges(V)') ;
      c = [p(1) p(3) p(3) p(1) p(1) ; p(2) p(2) p(4) p(4) p(2)] ;
      vt_near('plotbox', E, sortrows(sort_edges(c)'), 0) ;
    end
    if label
      pos = get(h(2,k), 'position') ;
      vt_near('plotbox.label', pos(1:2), [mean(p([1 3])) mean(p([2 4]))], 1e-6) ;
      if ~strcmp(get(h(2,k), 'string'), want{k}), vt_fail('plotbox.text', 'label %d is %s', k, get(h(2,k), 'string')) ; end
    end
    if ~isempty(args) && strcmp(args{1}, 'r'), vt_near('plotbox.color', get(h(1,k), 'color'), [1 0 0], 0) ; end
    if ~isempty(args) && strcmp(args{1}, 'g:')
      vt_near('plotbox.color', get(h(1,k), 'color'), [0 1 0], 0) ;
      if ~strcmp(get(h(1,k), 'linestyle'), ':'), vt_fail('plotbox.style', 'style %s', get(h(1,k), 'linestyle')) ; end
    end
    if ~isempty(args) && strcmp(args{1}, 'linewidth'), vt_near('plotbox.width', get(h(1,k), 'linewidth'), 3, 0) ; end
  end
  if ~vt_throws(@() vl_plotbox(zeros(3,2))), vt_fail('plotbox.error', 'boxes of three numbers are accepted') ; end
  vt_count('boxes', N) ; vt_seen(b, disp(args)) ;
end

function E = sort_edges (V)
  E = [] ;
  for i = 1:4
    e = sortrows(V(:,[i i+1])') ;
    E(:,i) = reshape(e', [], 1) ;
  end
end
